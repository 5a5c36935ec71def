"""C17: threaded playback delivers every frame once, in order, under any schedule"""
import sys, threading, time, queue, zlib
import numpy as np
import matplotlib
import matplotlib.image
import matplotlib.pyplot as plt
from vh import ref
from cddm import video as cv
from cddm.conf import set_showlib

PROP = "C17"
POISON = False
WALL_BLOCK_IS_VIOLATION = 45
RULE = ("videos of 0-60 frames through threaded, play_threaded and play, alone, nested and combined with display and processing stages, with random delays at producer and consumer, delays injected at every queue operation, "
        "1 us thread switching, bounded and unbounded prefetch, sources failing at a random frame, and consumers stopping at a random frame; distinct by the interleaving of produced and consumed events observed")
ASSUMPTIONS = ["threads are given 5 s to end after their consumer has stopped"]
FLOORS = {"quick": {"order": 1500, "prefetch": 250, "same-error": 250, "before-error": 250, "released": 350, "displayed": 60, "result": 40, "threads-end": 1000},
          "thorough": {"order": 12000, "prefetch": 2000, "same-error": 2000, "before-error": 2000, "released": 2500, "displayed": 500, "result": 400, "threads-end": 9000}}


class Boom(Exception):
    pass


class BoomBase(KeyError):
    pass


class Trace:
    """events of producer, queue and consumer in the order in which they happened"""

    def __init__(self):
        self.ev = []

    def __call__(self, what):
        self.ev.append(what)

    def sig(self):
        return "%08x" % zlib.crc32("".join(self.ev).encode())


class Delay:
    """random delays of a given style, thread safe enough (each thread draws from its own generator)"""

    def __init__(self, rng):
        self.style = str(rng.choice(["none", "none", "spin", "short", "burst"]))
        self.rng = np.random.default_rng(int(rng.integers(2 ** 31)))

    def __call__(self):
        if self.style == "none":
            return
        if self.style == "spin":
            time.sleep(0)
        elif self.style == "short":
            time.sleep(float(self.rng.random()) * 2e-4)
        elif self.rng.random() < 0.1:
            time.sleep(float(self.rng.random()) * 4e-3)


JITTER = {"on": False, "rng": np.random.default_rng(0)}


def _jitter():
    if JITTER["on"]:
        r = JITTER["rng"].random()
        if r < 0.15:
            time.sleep(float(JITTER["rng"].random()) * 5e-4)
        elif r < 0.5:
            time.sleep(0)


def setup(ctx):
    """delays at every queue operation: queue.Queue itself is what the library's threads meet at"""
    put, get, empty, full = queue.Queue.put, queue.Queue.get, queue.Queue.empty, queue.Queue.full

    def jput(self, *a, **k):
        _jitter()
        r = put(self, *a, **k)
        _jitter()
        return r

    def jget(self, *a, **k):
        _jitter()
        r = get(self, *a, **k)
        _jitter()
        return r

    def jempty(self):
        _jitter()
        r = empty(self)
        _jitter()
        return r

    def jfull(self):
        _jitter()
        return full(self)
    queue.Queue.put, queue.Queue.get, queue.Queue.empty, queue.Queue.full = jput, jget, jempty, jfull
    set_showlib("matplotlib")
    # what reaches the screen: the arrays given to matplotlib's images
    real = matplotlib.image.AxesImage.set_data

    def set_data(self, A, *a, **k):
        SHOWN.append((str(self.axes.get_title()) if self.axes is not None else "", np.array(A)))
        return real(self, A, *a, **k)
    matplotlib.image.AxesImage.set_data = set_data


SHOWN = []


def schedule(ctx, rng):
    sys.setswitchinterval(float(rng.choice([1e-6, 1e-5, 5e-3])))
    JITTER["on"] = bool(rng.random() < 0.6)
    JITTER["rng"] = np.random.default_rng(int(rng.integers(2 ** 31)))


def settle(ctx, base, key="threads-end", limit=5.0):
    """every thread started since `base` was recorded ends"""
    t0 = time.time()
    while True:
        new = [t for t in threading.enumerate() if t not in base and t.is_alive()]
        if not new:
            break
        if time.time() - t0 > limit:
            ctx.count(key)
            ctx.fail(key, "%s: %d thread(s) still running %g s after the consumer stopped" % (key, len(new), limit))
        time.sleep(0.002)
    ctx.count(key)


def make_frames(rng, n):
    kind = str(rng.choice(["tuple1", "tuple2", "array", "zeros", "object"]))
    shape = (2, 3)
    out = []
    for k in range(n):
        if kind == "tuple1":
            out.append((np.full(shape, k),))
        elif kind == "tuple2":
            out.append((np.full(shape, k), np.full(shape, -k)))
        elif kind == "array":
            out.append(np.full(shape, k))
        elif kind == "zeros":
            out.append((np.zeros(shape), np.zeros(shape)))
        else:
            out.append((k, str(k)))
    return kind, out


def source(frames, tr, delay, pulled, fail_at=None, exc=None, endless=False, closed=None):
    k = 0
    try:
        for f in frames:
            delay()
            if fail_at is not None and k == fail_at:
                tr("x")
                raise exc
            pulled.append(k)
            tr("p")
            yield f
            k += 1
        if fail_at is not None and fail_at >= k:
            raise exc
        while endless:
            delay()
            pulled.append(k)
            tr("p")
            yield frames[k % len(frames)]
            k += 1
    finally:
        if closed is not None:
            closed.append(True)


def wrap(rng, v, what, fast=False):
    """returns (iterator, prefetch bound or None)"""
    if what == "threaded":
        k = int(rng.choice([0, 0, 1, 1, 2, 5]))
        return (cv.threaded(v, queue_size=k) if k or rng.random() < 0.5 else cv.threaded(v)), (k or None)
    if what == "play_threaded":
        if rng.random() < 0.6:
            return cv.play_threaded(v), None
        return cv.play_threaded(v, fps=float(rng.choice([20., 500., 1e6] if not fast else [1e6]))), None
    fps = float(rng.choice([1e-3, 30., 1e7]))
    return cv.play(v, fps=fps), 0


def chain(rng, v, fast=False):
    depth = int(rng.choice([1, 1, 1, 2, 3]))
    names, bound = [], 0
    for _ in range(depth):
        what = str(rng.choice(["threaded", "threaded", "threaded", "play_threaded", "play"])) if depth == 1 else str(rng.choice(["threaded", "threaded", "play"]))
        v, b = wrap(rng, v, what, fast)
        names.append(what)
        bound = None if bound is None or b is None else bound + (b + 2 if what == "threaded" else 1)
    return v, names, bound


def delivery(ctx, rng, i):
    schedule(ctx, rng)
    n = int(rng.choice([0, 1, 2])) if rng.random() < 0.15 else int(rng.integers(2, 60))
    long = rng.random() < 0.03
    if long:
        n = int(rng.integers(100, 700))
    kind, frames = make_frames(rng, n)
    tr, pulled = Trace(), []
    base = set(threading.enumerate())
    src = source(frames, tr, Delay(rng), pulled)
    if rng.random() < 0.2:
        src = list(source(frames, lambda w: None, lambda: None, []))
        pulled = None
    v, names, bound = chain(rng, src, long)
    ctx.info = dict(frames=n, kind=kind, chain=names, prefetch=bound)
    cons = Delay(rng)
    got = []
    for f in v:
        tr("c")
        got.append(f)
        if bound is not None and pulled is not None:
            ahead = len(pulled) - len(got)
            ctx.check(ahead <= bound, "prefetch", lambda: "%d frames ahead of the consumer with %r (at most %d allowed)" % (ahead, names, bound))
        cons()
    ctx.check(len(got) == n, "order", lambda: "%d frames delivered of %d by %r" % (len(got), n, names))
    for k, (a, b) in enumerate(zip(got, frames)):
        if a is not b:
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b)):
                continue
            if isinstance(a, np.ndarray) and np.array_equal(a, b):
                continue
            ctx.fail("order", "frame %d delivered by %r is %r, expected %r" % (k, names, a, b))
    ctx.count("order", n)
    # nothing more afterwards
    extra = next(iter(v), "end")
    ctx.check(extra == "end" if isinstance(extra, str) else False, "order", "another frame after the last one")
    settle(ctx, base)
    ctx.mark("delivery", ",".join(names), n, tr.sig())


def failing(ctx, rng, i):
    schedule(ctx, rng)
    n = int(rng.integers(1, 30))
    at = int(rng.integers(0, n + 1))
    exc = [Boom("source"), ValueError("bad frame"), BoomBase("key"), OSError(5, "io"), RuntimeError("runtime")][int(rng.integers(5))]
    kind, frames = make_frames(rng, n)
    tr, pulled = Trace(), []
    base = set(threading.enumerate())
    v, names, bound = chain(rng, source(frames, tr, Delay(rng), pulled, fail_at=at, exc=exc))
    ctx.info = dict(frames=n, fail_at=at, error=type(exc).__name__, chain=names)
    got, caught = [], None
    cons = Delay(rng)
    try:
        for f in v:
            tr("c")
            got.append(f)
            cons()
    except Exception as e:
        caught = e
    ctx.check(caught is not None, "same-error", lambda: "the source failed at frame %d with %r, the consumer of %r saw a normal end after %d frames" % (at, exc, names, len(got)))
    ctx.check(type(caught) is type(exc) and caught.args == exc.args, "same-error", lambda: "consumer of %r got %r, the source raised %r" % (names, caught, exc))
    ctx.check(len(got) == at, "before-error", lambda: "%d frames delivered by %r before the failure at frame %d" % (len(got), names, at))
    for k, (a, b) in enumerate(zip(got, frames)):
        ctx.check(a is b, "before-error", "frame %d is not the source's" % k)
    settle(ctx, base)
    ctx.mark("failing", ",".join(names), n, at, tr.sig())


def abandon(ctx, rng, i):
    schedule(ctx, rng)
    n = int(rng.integers(3, 30))
    stop = int(rng.integers(0, n))
    kind, frames = make_frames(rng, n)
    tr, pulled, closed = Trace(), [], []
    base = set(threading.enumerate())
    endless = bool(rng.random() < 0.7)
    src = source(frames, tr, Delay(rng), pulled, endless=endless, closed=closed)
    k = int(rng.choice([1, 1, 2, 5]))
    what = str(rng.choice(["threaded", "threaded", "threaded", "play_threaded", "nested"]))
    if what == "threaded":
        v = cv.threaded(src, queue_size=k)
    elif what == "play_threaded":
        v = cv.play_threaded(src) if rng.random() < 0.5 else cv.play_threaded(src, fps=1e5)
    else:
        v = cv.threaded(cv.threaded(src, queue_size=k), queue_size=1)
    how = str(rng.choice(["close", "del", "break-exception"]))
    ctx.info = dict(what=what, stop=stop, how=how, endless=endless)
    cons = Delay(rng)
    got = []
    it = iter(v)
    try:
        while len(got) < stop:
            got.append(next(it))
            tr("c")
            cons()
        if how == "break-exception":
            raise Boom("consumer")
    except Boom:
        pass
    for a, b in zip(got, frames):
        ctx.check(a is b, "order", "frame is not the source's")
    ctx.check(len(got) == stop, "order", "stopped early")
    if how == "close":
        v.close()
    del v, it
    settle(ctx, base, "released")
    now = len(pulled)
    time.sleep(0.01)
    ctx.check(len(pulled) == now, "released", "the source is still being read after the consumer stopped")
    ctx.mark("abandon", what, how, stop, tr.sig())


def spectrum(f, clip, part):
    """displayed spectrum: zero wavevector blanked, zero in the middle of the rows; amplitude in 0..1, real or imaginary part around 0.5"""
    F = np.fft.rfft2(f)
    F = {"abs": np.abs, "real": np.real, "imag": np.imag}[part](F).copy()
    F[0, 0] = 0
    c = F.max() if clip is None else clip
    with np.errstate(all="ignore"):
        F = F / c if part == "abs" else F / c / 2 + 0.5
    return np.roll(np.clip(F, 0, 1), F.shape[0] // 2, axis=0)


def display(ctx, rng, i):
    """what is displayed is what was delivered; display stages pass frames through unchanged"""
    schedule(ctx, rng)
    JITTER["on"] = bool(rng.random() < 0.3)
    n = int(rng.integers(1, 9))
    h, w = int(rng.integers(2, 6)), int(rng.integers(2, 6))
    frames = [(rng.normal(size=(h, w)) + k, rng.normal(size=(h, w)) - k) for k in range(n)]
    ffts = bool(rng.random() < 0.25)
    if ffts:
        frames = [tuple(np.fft.rfft2(f) for f in fr) for fr in frames]
    del SHOWN[:]
    tr, pulled = Trace(), []
    base = set(threading.enumerate())
    v = source(frames, tr, Delay(rng), pulled)
    want = {}
    scale = 2.0
    for s in range(int(rng.integers(1, 4))):
        title = "stage %d" % s
        kind = str(rng.choice(["video", "video", "norm", "diff", "diff-norm", "diff-dt", "fft", "fft"]))
        cam = int(rng.integers(2))
        if kind == "video":
            v = cv.show_video(v, id=cam, title=title)
            want[title] = [f[cam].real for f in frames]
        elif kind == "norm":
            v = cv.show_video(v, id=cam, title=title, norm_func=lambda x: x.real * scale + 1)
            want[title] = [f[cam].real * scale + 1 for f in frames]
        elif kind == "fft":
            clip, part = (None if rng.random() < 0.5 else float(rng.uniform(0.3, 30))), str(rng.choice(["abs", "abs", "real", "imag"]))
            v = cv.show_fft(v, id=cam, title=title, clip=clip, **({} if part == "abs" and rng.random() < 0.5 else dict(mode=part)))
            want[title] = [spectrum(f[cam].real, clip, part) for f in frames]
        else:
            def diff(fr, normalize):
                x, y = fr[0].real, fr[1].real
                if normalize:
                    x, y = x / x.mean(), y / y.mean()
                m = 2 * max(x.max(), y.max())
                return x / m - y / m + 0.5
            if kind == "diff-dt":
                t1, t2 = rng.integers(0, 9, n), rng.integers(0, 9, n)
                dt = [int(d) for d in rng.integers(0, 6, int(rng.integers(1, 4)))]
                v = cv.show_diff(v, title=title, dt=dt, t1=t1, t2=t2)
                want[title] = [diff(f, False) for f, a, b in zip(frames, t1, t2) if abs(a - b) in dt]
            else:
                v = cv.show_diff(v, title=title, normalize=kind == "diff-norm")
                want[title] = [diff(f, kind == "diff-norm") for f in frames]
    style = str(rng.choice(["play", "play-all", "play_threaded", "play_threaded-fps", "none", "threaded+play"]))
    if style == "play":
        v = cv.play(v, fps=float(rng.choice([50., 1e5])), max_delay=float(rng.choice([0., 0.02])))
    elif style == "play-all":
        v = cv.play(v, fps=1e-4)
    elif style == "play_threaded":
        v = cv.play_threaded(v)
    elif style == "play_threaded-fps":
        v = cv.play_threaded(v, fps=float(rng.choice([30., 1e5])))
    elif style == "threaded+play":
        v = cv.play(cv.threaded(v, queue_size=int(rng.integers(0, 3))), fps=1e-4)
    ctx.info = dict(frames=n, style=style, stages=sorted(want), fft=ffts)
    ctx.raises(ValueError, lambda: cv.show_fft(iter(frames), mode="phase", title="t"), "rejected")
    got = list(v)
    ctx.check(len(got) == n and all(a is b or all(x is y for x, y in zip(a, b)) for a, b in zip(got, frames)), "order",
              lambda: "display stages changed the stream: %d of %d frames" % (len(got), n))
    for title, ims in want.items():
        shown = [a for t, a in SHOWN if t == title]
        # each displayed image is one of the delivered ones, in order of delivery
        pos = 0
        for a in shown:
            while pos < len(ims) and not (a.shape == ims[pos].shape and np.allclose(a, ims[pos], rtol=1e-9, atol=1e-9, equal_nan=True)):
                pos += 1
            ctx.check(pos < len(ims), "displayed", lambda: "an image displayed by %s was not among the frames (in order)" % title)
            pos += 1
        if style == "play-all":
            ctx.check(len(shown) == len(ims), "displayed", lambda: "%d images displayed of %d although there was time for all" % (len(shown), len(ims)))
        if style == "none":
            ctx.check(len(shown) == 0, "displayed", "displayed without a player")
    if style == "none":
        # images nobody played would be the first ones of the next player
        list(cv.play(iter([(0,)])))
    settle(ctx, base)
    plt.close("all")
    ctx.mark("display", style, n, tr.sig(), len(SHOWN))


def analysis(ctx, rng, i):
    """a threaded source gives the same correlation as the source itself"""
    from cddm.multitau import iccorr_multi, iacorr_multi
    from cddm.core import iccorr, iacorr
    schedule(ctx, rng)
    n = int(rng.integers(16, 60))
    h, w = int(rng.integers(2, 5)), int(rng.integers(2, 5))
    cams = 2 if rng.random() < 0.5 else 1
    frames = [tuple(rng.normal(size=(h, w)) + 1 for _ in range(cams)) for _ in range(n)]
    t1 = np.arange(n) * 2
    t2 = np.arange(n) * 2 + rng.integers(0, 2, n)

    def run(v):
        if cams == 2:
            if which == 0:
                return iccorr(v, t1, t2, n=8, method="corr", norm=1)
            return iccorr_multi(v, t1, t2, period=4, level_size=16, chunk_size=16)
        if which == 0:
            return iacorr(v, t1, n=8, method="corr", norm=1)
        return iacorr_multi(v, np.arange(n), level_size=16, chunk_size=16)

    def flat(r):
        if isinstance(r, (tuple, list)):
            return [a for x in r for a in flat(x)]
        return [] if r is None else [np.asarray(r)]
    which = int(rng.integers(2))
    ctx.info = dict(cams=cams, which=which, frames=n)
    base = set(threading.enumerate())
    want = flat(run(iter(frames)))
    tr, pulled = Trace(), []
    v, names, bound = chain(rng, cv.multiply(source(frames, tr, Delay(rng), pulled), ((np.ones((h, w)),) * cams for _ in range(n))))
    got = flat(run(v))
    ctx.check(len(got) == len(want), "result", "different result structure")
    for a, b in zip(got, want):
        ctx.equal(a, b, "result")
    del v
    settle(ctx, base)
    ctx.mark("analysis", cams, which, ",".join(names), tr.sig())


def side_by_side(ctx, rng, i):
    """several consumers at the same time, each with its own threaded source"""
    schedule(ctx, rng)
    m = int(rng.integers(2, 5))
    base = set(threading.enumerate())
    jobs = []
    for k in range(m):
        n = int(rng.integers(1, 25))
        frames = [(np.full((2, 2), 1000 * k + j),) for j in range(n)]
        jobs.append((frames, cv.threaded(source(frames, lambda w: None, Delay(rng), []), queue_size=int(rng.integers(0, 3)))))
    got = [[] for _ in jobs]
    errors = []

    def consume(k):
        try:
            for f in jobs[k][1]:
                got[k].append(f)
        except Exception as e:
            errors.append(e)
    if rng.random() < 0.5:
        ts = [threading.Thread(target=consume, args=(k,)) for k in range(m)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    else:
        live = set(range(m))
        while live:
            k = int(rng.choice(sorted(live)))
            f = next(jobs[k][1], None)
            if f is None:
                live.discard(k)
            else:
                got[k].append(f)
    ctx.check(not errors, "order", lambda: repr(errors))
    for k in range(m):
        ctx.check(len(got[k]) == len(jobs[k][0]) and all(a is b for a, b in zip(got[k], jobs[k][0])), "order", "stream %d mixed up" % k)
    settle(ctx, base)
    ctx.mark("side", m, [len(g) for g in got])


STREAMS = {
    "delivery": dict(fn=delivery, quick=700, thorough=6000),
    "failing": dict(fn=failing, quick=300, thorough=2500),
    "abandon": dict(fn=abandon, quick=250, thorough=2000),
    "display": dict(fn=display, quick=120, thorough=1000),
    "analysis": dict(fn=analysis, quick=60, thorough=500),
    "side_by_side": dict(fn=side_by_side, quick=80, thorough=600),
}
