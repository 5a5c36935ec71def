"""C19: trigger schedules and dual-camera frame pairing are faithful"""
import numpy as np
from vh import ref
from cddm import sim
from cddm.core import cross_count, auto_count
from cddm.video import asarrays

PROP = "C19"
SCALE = {"quick": 3, "thorough": 8}
RULE = ("schedules of every generator for random sizes, checked structurally and (over many draws) for their stated distribution, and recordings of scenes in which every time step looks different driven by generated and hand-made strictly increasing schedules "
        "(bursts of several triggers of one camera, gaps, coincident triggers, unequal lengths, triggers after the end); distinct by schedule pattern and parameters")
ASSUMPTIONS = ["trigger times of one camera are strictly increasing and not negative", "statistical comparisons use 5.5 standard errors"]
FLOORS = {"quick": {"schedule": 1500, "distribution": 150, "pair": 15000, "pairs-delivered": 700, "counts": 300, "expected-count": 20, "reproducible": 300, "trigger": 400},
          "thorough": {"schedule": 15000, "distribution": 1500, "pair": 150000, "pairs-delivered": 7000, "counts": 3000, "expected-count": 200, "reproducible": 3000, "trigger": 4000}}
Z = 5.5


def schedules(ctx, rng, i):
    N = int(rng.integers(1, 200)) if rng.random() < 0.97 else int(rng.integers(200, 4000))
    n = int(rng.choice([1, 2, 3, 4, 5, 8, 16, 32, 100]))
    which = str(rng.choice(["times1", "times2", "single"]))
    dt_min = int(rng.integers(0, n + 1))
    sd = int(rng.integers(2 ** 31))
    ctx.info = dict(which=which, nframes=N, n=n, dt_min=dt_min)

    def make():
        if which == "times1":
            return sim.create_random_times1(N, n) if n != 32 or N % 2 else sim.create_random_times1(N)
        if which == "times2":
            return sim.create_random_times2(N, n=n)
        return (sim.create_random_time(N, n=n, dt_min=dt_min),)
    np.random.seed(sd)
    t = make()
    np.random.rand(int(rng.integers(1, 5)))
    make()
    np.random.seed(sd)
    u = make()
    ctx.check(len(t) == len(u) and all(np.array_equal(a, b) for a, b in zip(t, u)), "reproducible", "the same random state gives another schedule")
    k = np.arange(N)
    for a in t:
        ctx.check(len(a) == N and a.dtype.kind in "iu", "schedule", lambda: "%d trigger times of type %s, %d requested" % (len(a), a.dtype, N))
        ctx.check(np.all(np.diff(a) > (0 if which != "single" or dt_min > 0 else -1)), "schedule", lambda: "trigger times not strictly increasing: %r" % a.tolist())
    if which == "single":
        a = t[0] - k * n
        ctx.check(np.all((a >= 0) & (a < n)), "schedule", lambda: "trigger outside of its period: %r" % a.tolist())
        ctx.check(np.all(np.diff(t[0]) >= dt_min), "schedule", lambda: "triggers %d apart, at least %d requested" % (np.diff(t[0]).min(), dt_min))
    else:
        a, b = t[0] - 2 * n * k, t[1] - 2 * n * k
        ctx.check(np.all((a >= 0) & (a < n)), "schedule", lambda: "camera 1 trigger outside of the first half of its period: %r" % a.tolist())
        same = (b == 0) | (b == n) | ((b == a) if which == "times2" else False)
        ctx.check(np.all(same), "schedule", lambda: "camera 2 triggers at %r of period %d" % (b.tolist(), 2 * n))
        ctx.check(np.all(np.abs(t[0] - t[1]) <= n), "schedule", "frame pair further than n apart")
    if len(t) == 2 and rng.random() < 0.5:
        m = int(rng.integers(1, 2 * n * N + 5)) if N < 60 else int(rng.integers(1, 40))
        c = np.asarray(cross_count(t[0], t[1], m))
        d = np.abs(t[0][:, None].astype(np.int64) - t[1][None])
        want = np.bincount(d[d < m], minlength=m)
        ctx.equal(c, want, "counts")
    elif len(t) == 1:
        m = int(rng.integers(1, n * N + 5)) if N < 60 else int(rng.integers(1, 40))
        c = np.asarray(auto_count(t[0], m))
        d = np.abs(t[0][:, None].astype(np.int64) - t[0][None])
        d = d[np.triu_indices(N)]
        if dt_min > 0:
            ctx.equal(c, np.bincount(d[d < m], minlength=m), "counts")
    ctx.mark("schedule", which, N, n, dt_min)


def uniform(ctx, x, m, what):
    """x is uniform on 0..m-1"""
    c = np.bincount(x, minlength=m)
    ctx.check(len(c) == m, "distribution", "%s: value %d out of range %d" % (what, len(c) - 1, m))
    p = 1. / m
    se = np.sqrt(len(x) * p * (1 - p)) + 1e-9
    ctx.check(np.all(np.abs(c - len(x) * p) < Z * se + 1), "distribution", lambda: "%s is not uniform: %r" % (what, c.tolist()))


def distribution(ctx, rng, i):
    N = 8000
    n = int(rng.choice([1, 2, 3, 5, 8, 16]))
    np.random.seed(int(rng.integers(2 ** 31)))
    k = np.arange(N)
    t1, t2 = sim.create_random_times1(N, n)
    a, b = t1 - 2 * n * k, (t2 - 2 * n * k) // n
    uniform(ctx, a, n, "camera 1 delay")
    uniform(ctx, b, 2, "camera 2 delay")
    uniform(ctx, a * 2 + b, 2 * n, "combination of delays")
    uniform(ctx, a[1:] * n + a[:-1], n * n, "succession of camera 1 delays")
    uniform(ctx, b[1:] * 2 + b[:-1], 4, "succession of camera 2 delays")
    t1, t2 = sim.create_random_times2(N, n)
    a, b = t1 - 2 * n * k, t2 - 2 * n * k
    uniform(ctx, a, n, "camera 1 delay")
    p = 1. / (2 * n)
    q = p + (1 - p) * 0.5 / n
    same = np.mean(a == b)
    ctx.check(abs(same - q) < Z * np.sqrt(q * (1 - q) / N) + 1e-9, "distribution", lambda: "coincident triggers: %g of frames, expected %g" % (same, q))
    off = b[(a != b)]
    ctx.check(np.all((off == 0) | (off == n)), "distribution", "camera 2 delay")
    r = sim.create_random_time(N, n) - n * k
    uniform(ctx, r, n, "delay")
    uniform(ctx, r[1:] * n + r[:-1], n * n, "succession of delays")
    ctx.mark("distribution", n, i)


def expected(ctx, rng, i):
    """random_time_count is the mean number of pairs of create_random_time at delays of a period and more"""
    n = int(rng.choice([2, 3, 5, 8]))
    N = int(rng.integers(3, 24))
    est = np.asarray(sim.random_time_count(N, n))
    ctx.check(len(est) == N * n + 1, "expected-count", "length %d" % len(est))
    reps = 400
    np.random.seed(int(rng.integers(2 ** 31)))
    acc = []
    for _ in range(reps):
        t = sim.create_random_time(N, n)
        acc.append(np.asarray(auto_count(t, N * n)))
    acc = np.array(acc, float)
    mean, sd = acc.mean(axis=0), acc.std(axis=0)
    d = np.abs(mean[n:] - est[n:N * n])
    ctx.check(np.all(d < Z * np.maximum(sd[n:], 0.15) / np.sqrt(reps) + 0.02), "expected-count", lambda: "mean number of pairs %r, estimated %r" % (mean[n:].tolist(), est[n:].tolist()))
    ctx.check(np.all(np.diff(est[1:n]) > 0) and est[0] == est.max(), "expected-count", "shape of the estimate within a period")
    ctx.mark("expected", n, N)


def burst_schedule(rng, T):
    """strictly increasing times below T"""
    kind = str(rng.choice(["random", "bursts", "dense", "late", "regular"]))
    t = np.arange(T)
    if kind == "random":
        t = t[rng.random(T) < rng.uniform(0.1, 0.9)]
    elif kind == "bursts":
        on = np.zeros(T, bool)
        p = 0
        while p < T:
            k = int(rng.integers(1, 8))
            on[p:p + k] = True
            p += k + int(rng.integers(1, 12))
        t = t[on]
    elif kind == "late":
        t = t[T // 2:]
    elif kind == "regular":
        t = t[int(rng.integers(0, 4))::int(rng.integers(1, 5))]
    if len(t) == 0:
        t = np.array([int(rng.integers(T))])
    return kind, t


def scene(h, w, T):
    """a particle at a different pixel at every time step"""
    for k in range(T):
        yield np.array([[k // w + 0.5, k % w + 0.5]])


def pairing(ctx, rng, i):
    h, w = int(rng.integers(3, 12)), int(rng.integers(3, 12))
    T = int(rng.integers(1, h * w + 1))
    src = str(rng.choice(["times1", "times2", "hand", "hand", "hand", "hand", "mirror"]))
    names = src
    if src in ("times1", "times2"):
        n = int(rng.integers(1, 4))
        N = max(1, T // (2 * n))
        t1, t2 = getattr(sim, "create_random_" + src)(N, n)
    elif src == "hand":
        k1, t1 = burst_schedule(rng, T)
        k2, t2 = burst_schedule(rng, T)
        names = k1 + "+" + k2
        if rng.random() < 0.5:
            m = min(len(t1), len(t2))
            t1, t2 = t1[:m], t2[:m]
        if rng.random() < 0.3:
            t1 = np.append(t1, [T + 3, T + 7])
    else:
        k1, t1 = burst_schedule(rng, T)
        t2 = t1 if rng.random() < 0.5 else np.maximum(t1 - int(rng.integers(0, 5)), np.arange(len(t1)))
    single = bool(rng.random() < 0.15)
    if rng.random() < 0.3:
        t1, t2 = [int(v) for v in t1], [int(v) for v in t2]
    off = (int(rng.integers(-h, 2 * h)), int(rng.integers(-w, 2 * w))) if rng.random() < 0.4 else None
    flip = bool(rng.random() < 0.25)
    ctx.info = dict(shape=(h, w), steps=T, schedule=names, t1=t1, t2=None if single else t2, offset=off, flip=flip)
    keep = (list(t1), list(t2))
    v = sim.particles_video(scene(h, w, T), t1=t1, t2=None if single else t2, shape=(h, w), intensity=7, sigma=None, offset=off, rotation=np.pi if flip else None)
    got = []
    for fr in v:
        got.append(fr)
    ctx.check((list(t1), list(t2)) == keep, "pair", "schedule changed")
    u1 = [int(t) for t in t1 if t < T]
    u2 = [int(t) for t in t2 if t < T]
    want = len(u1) if single else min(len(u1), len(u2))
    ctx.check(len(got) == want, "pairs-delivered", lambda: "%d frames (or pairs) delivered of %d triggered: t1=%r t2=%r" % (len(got), want, u1, u2))
    for k, fr in enumerate(got):
        ctx.check(isinstance(fr, tuple) and len(fr) == (1 if single else 2), "pair", "not a tuple of %d frames" % (1 if single else 2))
        for c, im in enumerate(fr):
            t = (u1, u2)[c][k]
            a, b = t // w, t % w
            if c == 0:
                if flip:
                    a, b = h - 1 - a, w - 1 - b
                if off:
                    a, b = (a + off[0]) % h, (b + off[1]) % w
            nz = np.argwhere(im)
            ctx.check(len(nz) == 1 and tuple(nz[0]) == (a, b) and im[a, b] == 7, "pair",
                      lambda: "image %d of camera %d shows pixels %r, at its trigger time %d the particle is at %r" % (k, c + 1, nz.tolist(), t, (a, b)))
    lead = np.max(np.searchsorted(u1, np.arange(T), side="right") - np.searchsorted(u2, np.arange(T), side="right")) if u1 and u2 else 0
    ctx.mark("pairing", names, len(u1), len(u2), int(lead), single, flip, off is None)


def trigger(ctx, rng, i):
    n = int(rng.integers(1, 40))
    idx = rng.integers(0, n + 5, int(rng.integers(1, 20)))
    if rng.random() < 0.3:
        idx = np.sort(idx)
    pulled = []

    def src():
        for k in range(n):
            pulled.append(k)
            yield ("item", k)
    arg = idx if rng.random() < 0.5 else [int(v) for v in idx]
    ctx.info = dict(n=n, indices=idx)
    keep = idx.copy()
    got = list(sim.data_trigger(src(), arg))
    want = [int(v) for v in sorted(set(idx.tolist())) if v < n]
    ctx.check(got == [("item", k) for k in want], "trigger", lambda: "selected %r, indices %r of %d items" % (got, idx.tolist(), n))
    ctx.equal(idx, keep, "trigger")
    ctx.mark("trigger", n, want)


STREAMS = {
    "schedules": dict(fn=schedules, quick=400, thorough=4000),
    "distribution": dict(fn=distribution, quick=12, thorough=120),
    "expected": dict(fn=expected, quick=6, thorough=60),
    "pairing": dict(fn=pairing, quick=400, thorough=4000),
    "trigger": dict(fn=trigger, quick=150, thorough=1500),
}
