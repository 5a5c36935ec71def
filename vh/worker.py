"""Runs one shard of a check's cases against the real cddm and reports what the monitors saw.

usage: worker.py PROP CONFIG SHARD NSHARD TIER SEED OUT [STREAM CASE]
"""
import sys, os, json, importlib, traceback, warnings, zlib, io, contextlib
import numpy as np


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


def _short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


class Ctx:
    """What a case reports to: oracle comparisons, event counters, distinct signatures"""

    def __init__(self, tier, config, seed):
        self.tier, self.config, self.seed = tier, config, seed
        self.counters, self.keys = {}, set()
        self.info = {}

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def mark(self, *key):
        self.keys.add("|".join(str(k) for k in key))

    def fail(self, key, msg):
        raise Violation(key, msg)

    def check(self, cond, key, msg=""):
        self.count(key)
        if not cond:
            raise Violation(key, "%s: %s" % (key, msg() if callable(msg) else msg))

    def shape(self, got, want, key):
        got = tuple(got)
        if got != tuple(want):
            raise Violation(key, "%s: shape %r, expected %r" % (key, got, tuple(want)))

    def equal(self, got, want, key, nan=True):
        """exact comparison (NaN equals NaN)"""
        self.count(key)
        got, want = np.asarray(got), np.asarray(want)
        self.shape(got.shape, want.shape, key)
        eq = got == want
        if nan and got.dtype.kind in "fc" and want.dtype.kind in "fc":
            eq = eq | (np.isnan(got) & np.isnan(want))
        if not np.all(eq):
            i = tuple(int(v) for v in np.argwhere(~np.asarray(eq))[0]) if got.ndim else ()
            raise Violation(key, "%s: %d of %d elements differ, first at %r: got %r, expected %r; got %s expected %s"
                            % (key, int(np.sum(~eq)), eq.size, i, got[i], want[i], _short(got.tolist()), _short(want.tolist())))

    def close(self, got, want, key, rtol=1e-9, atol=0.0, scale=None):
        """|got-want| <= atol + rtol*scale with scale the largest magnitude expected (unless given); NaN matches only NaN"""
        self.count(key)
        got, want = np.asarray(got), np.asarray(want)
        self.shape(got.shape, want.shape, key)
        if got.size == 0:
            return
        nan = np.isnan(want)
        if scale is None:
            fin = np.abs(want[np.isfinite(want)]) if want.ndim else np.abs(want[None][np.isfinite(want[None])])
            scale = float(fin.max()) if fin.size else 0.0
        tol = atol + rtol * (scale if scale > 0 else 1.0)
        with np.errstate(invalid="ignore"):
            ok = (np.abs(got - want) <= tol) | (got == want)
        ok = np.where(nan, np.isnan(got), ok)
        if not np.all(ok):
            i = tuple(int(v) for v in np.argwhere(~np.asarray(ok))[0]) if got.ndim else ()
            raise Violation(key, "%s: %d of %d elements differ, first at %r: got %r, expected %r (tolerance %.3g); got %s expected %s"
                            % (key, int(np.sum(~ok)), ok.size, i, got[i], want[i], tol, _short(got.tolist()), _short(want.tolist())))

    def raises(self, exc, fn, key, what=""):
        self.count(key)
        try:
            r = fn()
        except exc:
            return
        raise Violation(key, "%s: no exception (%s), returned %s" % (key, what, _short(r)))


def rng_for(seed, prop, stream, case):
    return np.random.default_rng([seed & 0xffffffff, zlib.crc32(prop.encode()), zlib.crc32(stream.encode()), case])


_real_empty, _real_empty_like = np.empty, np.empty_like


def _poison(a):
    if a.dtype.kind == "f" or a.dtype.kind == "c":
        a.fill(np.nan)
    elif a.dtype.kind in "iu":
        a.fill(np.iinfo(a.dtype).max // 3)
    return a


def poison_allocations():
    """np.empty as seen by Python code returns NaN / huge integers: uninitialised reads become visible"""
    def empty(*a, **k):
        return _poison(_real_empty(*a, **k))

    def empty_like(*a, **k):
        return _poison(_real_empty_like(*a, **k))
    np.empty, np.empty_like = empty, empty_like


def unpoison_allocations():
    np.empty, np.empty_like = _real_empty, _real_empty_like


def poison_small_blocks():
    """fill numpy's cache of small blocks with 0x7f bytes"""
    for n in range(8, 1024, 8):
        l = [_real_empty(n, np.uint8) for _ in range(4)]
        for a in l:
            a.fill(0x7f)
        del l


def main():
    prop, config, shard, nshard, tier, seed, out = sys.argv[1:8]
    shard, nshard, seed = int(shard), int(nshard), int(seed)
    only = (sys.argv[8], int(sys.argv[9])) if len(sys.argv) > 9 else None
    oh = open(out, "a", buffering=1)

    def emit(**ev):
        oh.write(json.dumps(ev, default=str) + "\n")

    warnings.simplefilter("ignore")
    with contextlib.redirect_stdout(io.StringIO()):
        import vh.nosave
        import cddm
        import cddm.conf
    root = os.environ["PYTHONPATH"].split(os.pathsep)[1]
    assert os.path.abspath(cddm.__file__).startswith(os.path.abspath(root) + os.sep), cddm.__file__
    mod = importlib.import_module("checks." + prop.lower())
    ctx = Ctx(tier, config, seed)
    np.seterr(all="ignore")
    if getattr(mod, "POISON", True):
        poison_allocations()
    setup = getattr(mod, "setup", None)
    if setup:
        setup(ctx)
    emit(e="ready")
    nviol = 0
    for stream, spec in mod.STREAMS.items():
        fn, n = spec["fn"], int(spec[tier] * getattr(mod, "SCALE", {}).get(tier, 1))
        if config not in spec.get("configs", ("default",)):
            continue
        if only and only[0] != stream:
            continue
        idx = [only[1]] if only else range(shard, n, nshard)
        nsample = 0
        bad = 0
        for i in idx:
            ctx.info = {}
            emit(e="start", stream=stream, case=i)
            rng = rng_for(seed, prop, stream, i)
            np.random.seed(int(rng.integers(2 ** 31)))
            if i % 8 == 0:
                poison_small_blocks()
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    fn(ctx, rng, i)
            except Violation as v:
                emit(e="violation", stream=stream, case=i, key=v.key, msg=str(v), info=_info(ctx.info))
                bad += 1
            except (KeyboardInterrupt, MemoryError):
                raise
            except BaseException as e:
                tb = traceback.format_exc()
                emit(e="violation", stream=stream, case=i, key="exception:" + type(e).__name__,
                     msg="unexpected %s: %s\n%s" % (type(e).__name__, e, tb[-1800:]), info=_info(ctx.info))
                bad += 1
            sample = None
            if nsample < 1 and shard < 2 and ctx.info:
                sample = _info(ctx.info)
                nsample += 1
            emit(e="end", stream=stream, case=i, sample=sample)
            if bad >= 5 and not spec.get("probe"):
                break
    emit(e="done", counters=ctx.counters, keys=sorted(ctx.keys))
    oh.close()
    sys.stdout.flush()
    os._exit(0)


def _info(d):
    def conv(v):
        if isinstance(v, np.ndarray):
            return v.tolist() if v.size <= 40 and v.dtype.kind in "biuf" else "array%r %s" % (v.shape, v.dtype)
        if isinstance(v, (np.integer,)):
            return int(v)
        if isinstance(v, (np.floating,)):
            return float(v)
        if isinstance(v, (list, tuple)) and len(v) > 60:
            return "%s of length %d" % (type(v).__name__, len(v))
        return v
    return {k: conv(v) for k, v in d.items()}


if __name__ == "__main__":
    # checks import vh.worker for Violation etc.: make that the same module
    sys.modules["vh.worker"] = sys.modules["__main__"]
    main()
