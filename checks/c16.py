"""C16: pipelines of per-frame operations deliver every frame once, in order, each by its formula"""
import os, tempfile, shutil
import numpy as np
from vh import ref, gen
from cddm import video as cv, fft

PROP = "C16"
RULE = ("random compositions of 0-6 crop, mask, subtract, add, multiply, normalize operations (and the FFT stage) on videos of 1-3 cameras of 1-30 frames from generators, lists, tuples and arrays, in place or not, any dtype, "
        "with a source that records every frame pulled and every later change to a frame, and conversions to arrays, memory and memory-mapped files compared bit by bit; distinct by (operations, cameras, dtypes, source, in-place)")
ASSUMPTIONS = ["the formula of an operation is numpy's on the frame's own dtype, converted to the requested dtype afterwards", "second operands supply as many frames as the first"]
FLOORS = {"quick": {"formula": 5000, "order": 1000, "lazy": 1500, "retained": 2500, "input-kept": 1500, "bits": 1500, "rejected": 300, "inplace": 300},
          "thorough": {"formula": 70000, "order": 14000, "lazy": 20000, "retained": 35000, "input-kept": 20000, "bits": 15000, "rejected": 4000, "inplace": 4000}}

DT = ["f8", "f8", "u1", "u2", "i4", "f4", "c16", "c8", "i8"]


def frame(rng, shape, dt):
    if dt[0] == "f":
        return (rng.normal(size=shape) + 2).astype(dt)
    if dt[0] == "c":
        return (rng.normal(size=shape) + 2 + 1j * rng.normal(size=shape)).astype(dt)
    return rng.integers(1, 120, shape).astype(dt)


def bits(a):
    a = np.ascontiguousarray(a)
    return (str(a.dtype), a.shape, a.tobytes())


class Recorder:
    """video source that remembers how far it was read"""

    def __init__(self, frames):
        self.frames, self.pulled, self.closed = frames, 0, False

    def __iter__(self):
        try:
            for f in self.frames:
                self.pulled += 1
                yield f
        finally:
            self.closed = True


def pipeline(ctx, rng, i):
    ncam = int(rng.choice([1, 2, 2, 3]))
    N = int(rng.integers(1, 10)) if rng.random() < 0.85 else int(rng.integers(10, 31))
    h, w = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    r = rng.random()
    if r < 0.01:
        N = int(rng.integers(100, 400))
    elif r < 0.03:
        h, w = int(rng.integers(20, 70)), int(rng.integers(20, 70))
    dts = [str(rng.choice(DT)) for _ in range(ncam)] if rng.random() < 0.3 else [str(rng.choice(DT))] * ncam
    frames = [tuple(frame(rng, (h, w), dts[c]) for c in range(ncam)) for _ in range(N)]
    if rng.random() < 0.2:
        # the same buffers every time would be overwritten in place: views of one array instead
        big = [np.stack([f[c] for f in frames]) for c in range(ncam)]
        frames = [tuple(b[k] for b in big) for k in range(N)]
    original = [tuple(f.copy() for f in fr) for fr in frames]
    model = [[f.copy() for f in fr] for fr in frames]
    src = Recorder(frames)
    v = src if rng.random() < 0.5 else iter(src)
    names, sides = [], []
    owned = False          # whether frames at this stage are the pipeline's own copies
    inplace_input = False
    cur = [(h, w)] * ncam
    for _ in range(int(rng.integers(0, 7))):
        op = str(rng.choice(["crop", "crop", "mask", "subtract", "add", "multiply", "normalize"]))
        two = len(cur[0]) == 2
        if op in ("crop",) and not two:
            continue
        if op == "mask" and not (two and rng.random() < 0.6):
            continue
        isint = any(m.dtype.kind in "iu" for m in model[0])
        inplace = bool(rng.random() < 0.3) and not (op == "normalize" and isint)
        dtype = None if inplace or rng.random() < 0.7 else str(rng.choice(["f8", "c16", "f4", "c8"]))
        if dtype and dtype[0] == "f" and any(m.dtype.kind == "c" for m in model[0]):
            dtype = "c16"
        kw = {}
        if inplace:
            kw["inplace"] = True
        if dtype:
            kw["dtype"] = np.dtype(dtype)
        if op == "crop":
            hh, ww = cur[0]
            a, b = sorted(int(x) for x in rng.integers(0, hh + 1, 2))
            c, d = sorted(int(x) for x in rng.integers(0, ww + 1, 2))
            if a == b or c == d:
                continue
            st = int(rng.integers(1, 3))
            k = int(rng.integers(0, 4))
            hs, ws = slice(a, b), slice(c, d)
            roi = [((a, b), (c, d)), (slice(a, b), slice(c, d)), ((a, b), slice(c, d)), ((a, b, st), (c, d))][k]
            if k == 3:
                hs = slice(a, b, st)
            v = cv.crop(v, roi)
            model = [[m[hs, ws] for m in fr] for fr in model]
        elif op == "mask":
            mk = rng.random(cur[0]) < 0.6
            mk.flat[0] = True
            v = cv.mask(v, mk)
            model = [[m[mk] for m in fr] for fr in model]
            owned = True
        elif op == "normalize":
            v = cv.normalize_video(v, **kw)
            new = []
            for fr in model:
                o = []
                for m in fr:
                    q = m / m.mean()
                    o.append(q.astype(m.dtype) if inplace else (q if dtype is None else q.astype(dtype)))
                new.append(o)
            model = new
        else:
            f = {"subtract": np.subtract, "add": np.add, "multiply": np.multiply}[op]
            odt = [m.dtype.str[1:] if inplace or rng.random() < 0.5 else "f8" for m in model[0]]
            if rng.random() < 0.5:
                other = [tuple(frame(rng, m.shape, t) for m, t in zip(model[0], odt))] * N
            else:
                other = [tuple(frame(rng, m.shape, t) for m, t in zip(fr, odt)) for fr in model]
            keep = [tuple(x.copy() for x in fr) for fr in other]
            sides.append((other, keep))
            y = other if rng.random() < 0.5 else iter(other)
            v = {"subtract": cv.subtract, "add": cv.add, "multiply": cv.multiply}[op](v, y, **kw)
            model = [[f(m, o).astype(m.dtype) if inplace else (f(m, o) if dtype is None else f(m, o).astype(dtype)) for m, o in zip(fr, ot)] for fr, ot in zip(model, keep)]
        if inplace and not owned:
            inplace_input = True
        if op not in ("crop",) and not inplace:
            owned = True
        cur = [m.shape for m in model[0]]
        names.append(op + ("!" if inplace else "") + (":" + dtype if dtype else ""))
    stage = None
    if rng.random() < 0.15 and len(cur[0]) == 2:
        stage = "fft"
        v = fft.rfft2_video(v)
        model = [[np.fft.rfft2(m.real) for m in fr] for fr in model]
        owned = True
        names.append("rfft2")
    ctx.info = dict(cameras=ncam, frames=N, shape=(h, w), dtypes=dts, operations=names)
    outs, snaps = [], []
    it = iter(v)
    for k in range(N):
        fr = next(it)
        if names:
            ctx.check(src.pulled == k + 1, "lazy", lambda: "%d frames pulled to deliver %d" % (src.pulled, k + 1))
        ctx.check(isinstance(fr, tuple) and len(fr) == ncam, "order", "cameras")
        outs.append(fr)
        snaps.append([np.array(x) for x in fr])
        for c in range(ncam):
            single = any(np.dtype(x).char in "fF" for x in [f.dtype for f in frames[0]] + [np.dtype(q.split(":")[1]) for q in names if ":" in q])
            want = model[k][c]
            ctx.check(fr[c].dtype == want.dtype or stage, "formula", lambda: "dtype %s, expected %s" % (fr[c].dtype, want.dtype))
            sc = np.abs(want.astype(complex))
            sc = float(sc.max()) if sc.size else 1.0
            ctx.close(fr[c], want, "formula", rtol=(2e-4 if single else 1e-12) * (30 if stage else 1), scale=max(sc, 1e-3))
    ctx.check(next(it, None) is None, "order", "more frames than given")
    if names:
        ctx.check(src.closed, "order", "source not exhausted")
    for k in range(N):
        for c in range(ncam):
            ctx.equal(outs[k][c], snaps[k][c], "retained")
            if not inplace_input:
                ctx.equal(frames[k][c], original[k][c], "input-kept")
    for other, keep in sides:
        for a, b in zip(other[:3], keep[:3]):
            for x, y in zip(a, b):
                ctx.equal(x, y, "input-kept")
    ctx.mark("pipe", ",".join(names), ncam, ",".join(sorted(set(dts))), N)


def inplace_ops(ctx, rng, i):
    """in place means: the given buffers hold the result; otherwise they are untouched and not shared"""
    ncam, N = int(rng.integers(1, 4)), int(rng.integers(1, 6))
    shape = (int(rng.integers(1, 6)), int(rng.integers(1, 6)))
    dt = str(rng.choice(["f8", "f4", "c16"]))
    fr = [tuple(frame(rng, shape, dt) for _ in range(ncam)) for _ in range(N)]
    other = [tuple(frame(rng, shape, dt) for _ in range(ncam)) for _ in range(N)]
    for name, fn in (("subtract", np.subtract), ("add", np.add), ("multiply", np.multiply), ("normalize", None)):
        for inplace in (True, False):
            a = [tuple(x.copy() for x in f) for f in fr]
            g = cv.normalize_video(a, inplace=inplace) if fn is None else getattr(cv, name)(a, other, inplace=inplace)
            out = list(g)
            ctx.check(len(out) == N, "order")
            for k in range(N):
                for c in range(ncam):
                    want = fr[k][c] / fr[k][c].mean() if fn is None else fn(fr[k][c], other[k][c])
                    ctx.close(out[k][c], want, "formula", rtol=1e-5 if dt == "f4" else 1e-13)
                    if inplace:
                        ctx.check(np.shares_memory(out[k][c], a[k][c]), "inplace", name)
                        ctx.close(a[k][c], want, "inplace", rtol=1e-5 if dt == "f4" else 1e-13)
                    else:
                        ctx.check(not np.shares_memory(out[k][c], a[k][c]), "inplace", name)
                        ctx.equal(a[k][c], fr[k][c], "input-kept")
    ctx.info = dict(cameras=ncam, frames=N, shape=shape, dtype=dt)
    ctx.mark("inplace", ncam, N, shape, dt)


def conversions(ctx, rng, i):
    ncam = int(rng.integers(1, 4))
    N = int(rng.integers(1, 12)) if rng.random() < 0.95 else int(rng.integers(100, 600))
    shapes = [tuple(int(x) for x in rng.integers(1, 7, int(rng.choice([1, 2, 2, 2])))) for _ in range(ncam)]
    dts = [str(rng.choice(DT + ["bool", "i2"])) for _ in range(ncam)]
    fr = [tuple(frame(rng, shapes[c], "i8").astype("bool") if dts[c] == "bool" else frame(rng, shapes[c], dts[c]) for c in range(ncam)) for _ in range(N)]
    for f in fr:
        for x in f:
            if x.dtype.kind == "f" and rng.random() < 0.3:
                x.flat[0] = rng.choice([np.nan, -0.0, np.inf, 5e-324])
    ctx.info = dict(frames=N, shapes=shapes, dtypes=dts)
    how = int(rng.integers(0, 4))
    src = [lambda: iter(fr), lambda: fr, lambda: tuple(fr), lambda: (x for x in fr)][how]
    count = N if how in (0, 3) or rng.random() < 0.5 else None
    arr = cv.asarrays(src(), count)
    ctx.check(len(arr) == ncam, "order")

    def same(arrays):
        for c in range(ncam):
            a = arrays[c]
            ctx.check(a.shape == (N,) + shapes[c] and a.dtype == fr[0][c].dtype, "bits", "shape or dtype")
            for k in range(N):
                ctx.check(bits(a[k]) == bits(fr[k][c]), "bits", lambda: "frame %d camera %d" % (k, c))
                ctx.check(not np.shares_memory(a, fr[k][c]), "bits", "not a copy")
    same(arr)
    back = list(cv.fromarrays(arr))
    ctx.check(len(back) == N and all(len(b) == ncam for b in back), "order")
    for k in range(N):
        for c in range(ncam):
            ctx.check(bits(back[k][c]) == bits(fr[k][c]), "bits")
    mem = cv.load(src(), count)
    ctx.check(isinstance(mem, tuple) and len(mem) == N, "order")
    for rep in range(2):      # a loaded video can be played again
        for k, f in enumerate(mem):
            for c in range(ncam):
                ctx.check(bits(f[c]) == bits(fr[k][c]), "bits")
    d = tempfile.mkdtemp(prefix="c16-", dir=os.environ.get("TMPDIR"))
    try:
        base = os.path.join(d, "video")
        mm = cv.asmemmaps(base, src(), count)
        ctx.check(len(mm) == ncam, "order")
        same(mm)
        files = sorted(os.listdir(d))
        ctx.check(files == ["video_%d.npy" % c for c in range(ncam)], "bits", repr(files))
        for m in mm:
            m.flush()
        same([np.load(base + "_%d.npy" % c) for c in range(ncam)])
        same([np.load(base + "_%d.npy" % c, mmap_mode="r") for c in range(ncam)])
        del mm
        # a video of another length than announced is refused
        for wrong in ((N + 1, N + 3) if i % 2 else (N + 1,)):
            ctx.raises(Exception, lambda: cv.asarrays(iter(fr), wrong), "rejected", "short video")
            ctx.raises(Exception, lambda: cv.asmemmaps(base, iter(fr), wrong), "rejected", "short video")
        if N > 1:
            ctx.raises(Exception, lambda: cv.asarrays(iter(fr), N - 1), "rejected", "long video")
            ctx.raises(Exception, lambda: cv.load(iter(fr), N - 1), "rejected", "long video")
    finally:
        shutil.rmtree(d)
    ctx.raises(ValueError, lambda: cv.asarrays(iter(fr)), "rejected", "unknown length")
    ctx.raises(ValueError, lambda: cv.load(iter(fr)), "rejected", "unknown length")
    ctx.mark("convert", N, ncam, tuple(shapes), ",".join(dts), how, count is None)


class Boom(Exception):
    pass


def faults(ctx, rng, i):
    """errors of the source or mismatched cameras reach the consumer after the frames before them"""
    ncam, N = int(rng.integers(1, 4)), int(rng.integers(1, 8))
    fail = int(rng.integers(0, N))
    fr = [tuple(frame(rng, (3, 4), "f8") for _ in range(ncam)) for _ in range(N)]

    def src():
        for k, f in enumerate(fr):
            if k == fail:
                raise Boom(k)
            yield f
    ops = [lambda v: cv.crop(v, ((0, 2), (1, 3))), lambda v: cv.mask(v, np.ones((3, 4), bool)), lambda v: cv.add(v, fr), lambda v: cv.subtract(v, fr), lambda v: cv.multiply(v, fr),
           lambda v: cv.normalize_video(v), lambda v: fft.rfft2_video(v), lambda v: fft.fft2_video(v), lambda v: fft.normalize_fft(fft.rfft2_video(v))]
    for op in ops:
        got = 0
        try:
            for f in op(src()):
                got += 1
            ctx.fail("rejected", "source failure swallowed")
        except Boom:
            ctx.count("rejected")
        ctx.check(got == fail, "order", lambda: "%d frames before the failure at %d" % (got, fail))
    short = [f[:-1] if k == fail else f for k, f in enumerate(fr)]
    for op in (cv.add, cv.subtract, cv.multiply):
        for a, b in ((fr, short), (short, fr)):
            ctx.raises(ValueError, lambda: list(op(a, b)), "rejected", "different number of cameras")
    for roi in (5, (1, 2), ((0, 1),), None):
        ctx.raises(ValueError, lambda: list(cv.crop(fr, roi)), "rejected", "roi %r" % (roi,))
    ctx.raises(Boom, lambda: cv.asarrays(src(), N), "rejected", "source failure")
    ctx.raises(Boom, lambda: cv.load(src(), N), "rejected", "source failure")
    d = tempfile.mkdtemp(prefix="c16-", dir=os.environ.get("TMPDIR"))
    try:
        ctx.raises(Boom, lambda: cv.asmemmaps(os.path.join(d, "v"), src(), N), "rejected", "source failure")
    finally:
        shutil.rmtree(d)
    ctx.info = dict(frames=N, fail=fail)
    ctx.mark("fault", N, fail, ncam)


STREAMS = {"pipeline": dict(fn=pipeline, quick=900, thorough=14000), "inplace": dict(fn=inplace_ops, quick=40, thorough=500), "conversions": dict(fn=conversions, quick=150, thorough=2000),
           "faults": dict(fn=faults, quick=40, thorough=500)}
