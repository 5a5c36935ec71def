"""Reference models of streaming and multiple-tau results, and the instrumented frame source"""
import numpy as np
from . import ref, gen


class Source:
    """Iterates frames as a camera would, keeping a log of what was taken.

    kind: list-like tuples, generator, or generator that reuses (and spoils) one buffer
    """

    def __init__(self, stacks, kind="generator", bare=False, length=None, rng=None):
        self.layout = (lambda a: a) if rng is None else gen.frame_layouts(np.random.default_rng(int(rng.integers(1 << 30))))
        self.stacks, self.kind, self.bare = stacks, kind, bare
        self.length = len(stacks[0]) if length is None else length
        self.pulled = 0

    def frames(self, i):
        fr = tuple(self.layout(s[i]) for s in self.stacks)
        return fr[0] if self.bare else fr

    def __iter__(self):
        if self.kind == "buffer":
            bufs = [self.layout(np.empty(s.shape[1:], s.dtype)) for s in self.stacks]
            bufs = [b if b.flags.writeable else b.copy() for b in bufs]
            for i in range(self.length):
                self.pulled += 1
                for b, s in zip(bufs, self.stacks):
                    b[...] = s[i]
                yield bufs[0] if self.bare else tuple(bufs)
                for b in bufs:
                    b[...] = 111
        else:
            for i in range(self.length):
                self.pulled += 1
                yield self.frames(i)


class ListSource(Source):
    def __len__(self):
        return self.length


def increasing_times(rng, n, kind=None):
    kind = kind or str(rng.choice(["arange", "offset", "gaps", "gaps", "big"]))
    if kind == "arange":
        return np.arange(n), kind
    if kind == "offset":
        return np.arange(n) + int(rng.integers(-30, 60)), kind
    if kind == "big":
        return np.cumsum(rng.integers(1, 9, n)) + int(rng.integers(-5, 5)), kind
    return np.cumsum(rng.integers(1, 4, n)), kind


def two_increasing_times(rng, n, kind=None):
    """both cameras triggered once in every window, in any order"""
    kind = kind or str(rng.choice(["same", "window", "window", "shift", "arange"]))
    if kind == "same":
        t, _ = increasing_times(rng, n)
        return t, t.copy(), kind
    if kind == "arange":
        return np.arange(n), np.arange(n), kind
    if kind == "shift":
        t, _ = increasing_times(rng, n)
        return t, t + int(rng.integers(-2, 3)), kind
    w = int(rng.integers(2, 5))
    base = np.arange(n) * w
    return base + rng.integers(0, w, n), base + rng.integers(0, w, n), kind


def outside_adjacent(t1, t2, n, half):
    """is there a pair with |delay| < n whose frames are not in the same or neighbouring chunks?"""
    N = len(t1)
    c = np.arange(N) // half
    far = np.abs(c[:, None] - c[None, :]) > 1
    return bool((far & (np.abs(np.asarray(t2)[None, :] - np.asarray(t1)[:, None]) < n)).any())


def streamed_length(count, half):
    """frames that are processed: half * 2**k"""
    n = half
    while 2 * n <= count:
        n *= 2
    return n


def binned_levels(stacks, binning, nlevel):
    """list over levels >= 1 of tuples of binned stacks"""
    out = []
    cur = stacks
    for _ in range(nlevel):
        cur = tuple(None if s is None else ref.binned(s, binning) for s in cur)
        out.append(cur)
    return out


def _chunked(fn, length, half):
    """sum of fn over chunks"""
    total = None
    for a in range(0, length, half):
        r = fn(slice(a, min(a + half, length)))
        total = r if total is None else tuple(None if x is None else x + y for x, y in zip(total, r))
    return total


def level_tuple(f1, f2, t1, t2, n, norm, method, cplx, s1=None, s2=None, half=None):
    """tuple of one level; half: only pairs within the same chunk of that many frames"""
    def one(sl):
        a1, a2 = f1[sl], None if f2 is None else f2[sl]
        q1, q2 = None if s1 is None else s1[sl], None if s2 is None else s2[sl]
        if f2 is None:
            return ref.acorr_tuple(a1, t1[sl], n, norm, method, cplx, fs=q1)
        r = ref.ccorr_tuple(a1, a2, t1[sl], t2[sl], n, norm, method, cplx, f1s=q1, f2s=q2)
        if method == "diff" and not norm & 4:
            r = r[:2] + (None, None)
        return r
    if half is None:
        return one(slice(None))
    return _chunked(one, len(f1), half)


def multi_reference(f1, f2, t1, t2, n_fast, n_slow, nlevel, norm, method, cplx, binning, half=None):
    """(fast tuple, list of slow tuples)"""
    N = len(f1)
    T1 = np.arange(N) if t1 is None else np.asarray(t1)
    T2 = T1 if t2 is None else np.asarray(t2)
    fast = level_tuple(f1, f2, T1, T2, n_fast, norm, method, cplx, half=half)
    slow = []
    s1 = ref.abs2(f1)
    s2 = None if f2 is None else ref.abs2(f2)
    for (a1, a2, q1, q2) in binned_levels((f1, f2, s1, s2), binning, nlevel):
        r = np.arange(len(a1))
        slow.append(level_tuple(a1, a2, r, r, n_slow, norm, method, cplx, q1, q2, half=half))
    return fast, slow


NAMES = {4: ["corr", "count", "m1", "m2"], 5: ["corr", "count", "sq", "m1", "m2"]}


def compare_tuple(ctx, got, want, label, mask=None, exact=True, scale=1.0, level=None):
    """every piece present exactly when needed, equal to the reference, NaN outside the mask"""
    names = NAMES[len(want)]
    ctx.check(len(got) == len(want), label + ":tuple-length", lambda: "%d" % len(got))
    for g, w, nm in zip(got, want, names):
        key = "%s:%s" % (label, nm)
        if w is None:
            ctx.check(g is None or level == "any", key + ":absent", "unexpected piece")
            continue
        ctx.check(g is not None, key + ":present", "missing piece")
        g = np.asarray(g)
        if nm == "count":
            ctx.equal(g, w, key)
            continue
        w = np.asarray(w)
        if mask is not None:
            # frame dimensions are right before the delay axis
            sel = (Ellipsis, mask, slice(None))
            ctx.shape(g.shape, w.shape, key)
            ctx.check(bool(np.all(np.isnan(g[(Ellipsis, ~mask, slice(None))]))), key + ":nan-outside-mask", "values outside the mask")
            g, w = g[sel], w[sel]
        if exact:
            ctx.equal(g, w, key)
        else:
            ctx.close(g, w, key, rtol=1e-11, scale=scale)


def stack_slow(slow, shape, n, like):
    """list of level tuples -> one tuple with a leading level axis (None pieces kept)"""
    if not slow:
        return None
    out = []
    for k in range(len(slow[0])):
        out.append(None if slow[0][k] is None else np.stack([s[k] for s in slow]))
    return tuple(out)
