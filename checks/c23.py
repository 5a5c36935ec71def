"""C23: settings are validated, take effect, and are never left changed by a call"""
import contextlib, io, itertools, os, subprocess, sys, shutil, tempfile, threading, warnings
import numpy as np
from vh import gen, ops
import cddm
from cddm import conf, core, multitau as mt, norm as nm, print_tools as pt, video, viewer, sim, fft

PROP = "C23"
CONFIGS = ("default",)
RULE = ("random histories of setter calls (valid, unknown and uninstalled values), temporary quieting, nested quieting, analysis calls, analysis calls that fail at a random point and iterators abandoned at a random point; a model of the settings is compared after every step with everything that can be read back "
        "(CDDMConfig, pyfftw and numba thread counts, the messages a call actually prints, the fft library entered); configuration files and environment variables are tried in fresh interpreters; distinct by history")
ASSUMPTIONS = ["libraries that are not installed here (mkl_fft, cv2) are only tried as requests that must keep the old value", "levels of verbosity are 0, 1 and 2",
               "numba thread counts are per calling thread, as in numba itself"]
FLOORS = {"quick": {"settings": 9000, "previous-value": 2500, "rejected": 800, "message": 1200, "left-changed": 2500, "abandoned": 150, "config-file": 60},
          "thorough": {"settings": 90000, "previous-value": 25000, "rejected": 8000, "message": 12000, "left-changed": 25000, "abandoned": 1500, "config-file": 300}}
SCALE = {"quick": 1, "thorough": 12}

ALIAS = {"numpy.fft": "numpy", "scipy.fftpack": "scipy"}
_calls = []


def setup(ctx):
    """note which library's transforms are entered"""
    import scipy.fftpack, scipy.fft, pyfftw.interfaces
    mods = {"numpy": [np.fft], "scipy": [scipy.fftpack, scipy.fft], "pyfftw": [pyfftw.interfaces.scipy_fftpack, pyfftw.interfaces.numpy_fft]}
    for lib, ms in mods.items():
        for m in ms:
            for f in ("fft", "ifft", "fft2", "rfft2"):
                if hasattr(m, f):
                    def wrap(real=getattr(m, f), lib=lib, f=f):
                        def w(*a, **k):
                            _calls.append((lib, f))
                            return real(*a, **k)
                        return w
                    setattr(m, f, wrap())


class Model:
    def __init__(self):
        self.s = {}
        self.read(True)

    def read(self, first=False):
        import numba, pyfftw
        c = conf.CDDMConfig
        r = dict(verbose=c.verbose, fftlib=c.fftlib, rfft2lib=c.rfft2lib, showlib=c.showlib, fft_threads=c.fft_threads, numba_threads=c.numba_threads)
        r["pyfftw threads"] = pyfftw.config.NUM_THREADS
        r["numba threads"] = numba.get_num_threads()
        if first:
            self.s = dict(r)
        return r

    def compare(self, ctx, key, what):
        r = self.read()
        ctx.count(key, len(r))
        for k in r:
            if r[k] != self.s[k]:
                ctx.fail(key, "after %s the setting %s is %r, expected %r" % (what, k, r[k], self.s[k]))


def setter(ctx, rng, m):
    k = int(rng.integers(0, 6))
    max_threads = conf.detect_number_of_cores()
    if k == 0:
        v = int(rng.choice([0, 1, 2, 2, 1, -1]))
        out = conf.set_verbose(v)
        prev, m.s["verbose"] = m.s["verbose"], max(0, v)
        what = "set_verbose(%d)" % v
    elif k == 1 or k == 2:
        f, key = (conf.set_fftlib, "fftlib") if k == 1 else (conf.set_rfft2lib, "rfft2lib")
        v = str(rng.choice(["numpy", "numpy.fft", "scipy", "scipy.fftpack", "pyfftw", "mkl_fft", "fftw", "NUMPY", "", "none", "cupy"]))
        what = "%s(%r)" % (f.__name__, v)
        prev = m.s[key]
        if v in ("fftw", "NUMPY", "", "none", "cupy"):
            ctx.raises(ValueError, lambda: f(v), "rejected", what)
            m.compare(ctx, "settings", what)
            return what
        out = f(v)
        if v != "mkl_fft" or conf.MKL_FFT_INSTALLED:
            m.s[key] = ALIAS.get(v, v)
    elif k == 3:
        v = str(rng.choice(["matplotlib", "pyqtgraph", "cv2", "tk", "", "qt"]))
        what = "set_showlib(%r)" % v
        prev = m.s["showlib"]
        if v in ("tk", "", "qt"):
            ctx.raises(ValueError, lambda: conf.set_showlib(v), "rejected", what)
            m.compare(ctx, "settings", what)
            return what
        out = conf.set_showlib(v)
        if v != "cv2" or conf.CV2_INSTALLED:
            m.s["showlib"] = v
    elif k == 4:
        v = int(rng.integers(1, 9))
        what = "set_fft_threads(%d)" % v
        prev, out = m.s["fft_threads"], conf.set_fft_threads(v)
        m.s["fft_threads"] = m.s["pyfftw threads"] = v
    else:
        v = int(rng.choice([1, 2, 3, max_threads, 0, -1, 10 ** 6]))
        what = "set_numba_threads(%d)" % v
        prev = m.s["numba_threads"]
        if v < 1 or v > max_threads:
            ctx.raises(ValueError, lambda: conf.set_numba_threads(v), "rejected", what)
            m.compare(ctx, "settings", what)
            return what
        out = conf.set_numba_threads(v)
        m.s["numba_threads"] = m.s["numba threads"] = v
    ctx.check(out == prev, "previous-value", "%s returned %r, the previous value was %r" % (what, out, prev))
    m.compare(ctx, "settings", what)
    return what


def level_seen(ctx, m, what):
    """the verbosity in force is the one observed"""
    v = m.s["verbose"]
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        pt.print1("one")
        pt.print2("two")
    ctx.check(b.getvalue() == "one\n" * (v >= 1) + "two\n" * (v >= 2), "message", "after %s at verbosity %d print1 and print2 printed %r" % (what, v, b.getvalue()))


def z_video(rng, n, cams=2):
    h, w = int(rng.integers(2, 5)), int(rng.integers(2, 5))
    return [tuple(rng.normal(size=(h, w)) + 0j for _ in range(cams)) for _ in range(n)]


class Boom(Exception):
    pass


def bomb(v, at, kind):
    """a source that fails, ends or goes wrong at frame `at`"""
    for i, fr in enumerate(v):
        if i == at:
            if kind == "raise":
                raise Boom()
            if kind == "end":
                return
            if kind == "shape":
                fr = tuple(np.ones((9, 9)) for _ in fr)
            if kind == "none":
                fr = tuple(None for _ in fr)
            if kind == "interrupt":
                raise KeyboardInterrupt()
        yield fr


def analysis(rng):
    """(what, function): an analysis call, good or failing"""
    n = int(rng.integers(24, 70))
    v = z_video(rng, n)
    f1 = np.array([a for a, b in v])
    f2 = np.array([b for a, b in v])
    t = np.arange(n)
    k = int(rng.integers(0, 14))
    norm = int(rng.choice([1, 2, 3, 5, 7]))
    at, kind = int(rng.integers(0, n)), str(rng.choice(["raise", "end", "shape", "none", "interrupt"]))
    cut = int(rng.integers(1, n))
    if k == 0:
        return "ccorr", lambda: core.ccorr(f1, f2, n=8, norm=norm)
    if k == 1:
        return "ccorr_multi", lambda: mt.ccorr_multi(f1, f2, level_size=8, norm=norm)
    if k == 2:
        return "ccorr_multi with too few times", lambda: mt.ccorr_multi(f1, f2, t[:cut], t[:cut], level_size=8, norm=norm)
    if k == 3:
        return "iccorr of a source that fails (%s) at frame %d" % (kind, at), lambda: core.iccorr(bomb(v, at, kind), t, t, n=8, norm=norm)
    if k == 4:
        return "iccorr_multi of a source that fails (%s) at frame %d" % (kind, at), lambda: mt.iccorr_multi(bomb(v, at, kind), t, t, level_size=8, norm=norm)
    if k == 5:
        bad = [t[:cut], np.zeros((n, 2), int), np.array(["a"] * n), t][int(rng.integers(0, 4))]
        return "iacorr_multi with times of shape %r" % (bad.shape,), lambda: mt.iacorr_multi(bomb([(a,) for a, b in v], n, ""), bad, level_size=8)
    if k == 6:
        bad = [t[:cut], np.zeros((n, 2), int), np.array(["a"] * n), t][int(rng.integers(0, 4))]
        return "iacorr with times of shape %r" % (bad.shape,), lambda: core.iacorr(bomb([(a,) for a, b in v], n, ""), bad, n=8)
    if k in (7, 8):
        multi = k == 8
        d = mt.ccorr_multi(f1, f2, level_size=8, norm=3) if multi else core.ccorr(f1, f2, n=8, norm=3)
        bg = (f1.mean(0), f2.mean(0))
        var = (f1.var(0), f2.var(0))
        kw = dict(norm=[1, 2, 3, 5, 6, 7, 9, 11, 10, 99, "weighted", "subtracted", "xx"][int(rng.integers(0, 13))])
        if rng.random() < 0.7:
            kw["background"] = bg if rng.random() < 0.8 else (np.ones(9), np.ones(9))
        if rng.random() < 0.7:
            kw["variance"] = var if rng.random() < 0.8 else (np.ones(9), np.ones(9))
        if rng.random() < 0.3:
            kw["scale"] = True
        if rng.random() < 0.2:
            kw["mask"] = np.ones((9, 9), bool) if rng.random() < 0.5 else np.ones(f1.shape[1:], bool)
        if rng.random() < 0.2:
            kw["mode"] = str(rng.choice(["corr", "diff", "xx"]))
        return "normalize%s %r" % ("_multi" if multi else "", sorted((a, b) for a, b in kw.items() if a in ("norm", "scale", "mode"))), lambda: (mt.normalize_multi if multi else core.normalize)(d, **kw)
    if k == 9:
        w = viewer.MultitauViewer(scale=True, shape=(f1.shape[1], 2 * f1.shape[2] - 2))
        d = mt.ccorr_multi(f1, f2, level_size=8, norm=3)
        bad = rng.random() < 0.5
        w.set_data(d, background=(f1.mean(0), f2.mean(0)), variance=(np.ones(9), np.ones(9)) if bad else (f1.var(0), f2.var(0)))
        norm = int(rng.choice([1, 2, 3, 5, 6, 7, 11]))

        def view():
            w.set_norm(norm)
            w.plot()
        return "MultitauViewer.plot of %s data" % ("unusable" if bad else "good"), view
    if k == 10:
        return "log_average", lambda: mt.log_average(core.normalize(core.ccorr(f1, f2, norm=1)), size=int(rng.choice([2, 4, 8, 1000])))
    if k == 11:
        name, fn, a, kw = ops.build(rng)
        return name, lambda: fn(*a, **kw)
    if k == 12:
        return "acorr_multi with wrong options", lambda: mt.acorr_multi(f1, level_size=8, **[dict(method="xx"), dict(norm=99), dict(binning=7), dict(mask=np.ones((9, 9), bool)), dict(thread_divisor=7), dict(t=t[:3])][int(rng.integers(0, 6))])
    return "asarrays of a source that fails (%s)" % kind, lambda: video.asarrays(bomb(v, at, kind), n)


def history(ctx, rng, i):
    sys_err = np.geterr()
    m = Model()
    done = []
    for step in range(int(rng.integers(5, 20))):
        r = rng.random()
        if r < 0.45:
            what = setter(ctx, rng, m)
        elif r < 0.6:
            # quieting, nested, restored by the saved levels
            depth = int(rng.integers(1, 4))
            saved = []
            start = m.s["verbose"]
            for _ in range(depth):
                saved.append(pt.disable_prints())
                m.s["verbose"] = -abs(m.s["verbose"])
                m.compare(ctx, "settings", "disable_prints")
                level_seen(ctx, m, "disable_prints")
            if rng.random() < 0.5:
                what, f = analysis(rng)
                try:
                    with contextlib.redirect_stdout(io.StringIO()) as b:
                        f()
                except (Exception, KeyboardInterrupt):
                    pass
                m.compare(ctx, "left-changed", what + " inside a quiet section")
            for lev in reversed(saved):
                pt.enable_prints(lev)
                m.s["verbose"] = lev
                m.compare(ctx, "settings", "enable_prints(saved level)")
            ctx.check(m.read()["verbose"] == start, "left-changed", "nested quiet sections changed the verbosity")
            what = "quiet section of depth %d" % depth
        elif r < 0.68 and m.s["verbose"] >= 0:
            pt.disable_prints()
            pt.enable_prints()
            what = "disable_prints, enable_prints"
            m.compare(ctx, "settings", what)
        elif r < 0.78:
            # an iterator abandoned half way
            n = int(rng.integers(30, 70))
            v = z_video(rng, n)
            t = np.arange(n)
            it = (core.iccorr if rng.random() < 0.5 else mt.iccorr_multi)
            kw = dict(n=8) if it is core.iccorr else dict(level_size=8)
            stop = int(rng.integers(0, n))
            src = {"source": v}

            class Abandon(Exception):
                pass

            class V:
                calls = 0

                def set_data(self, *a, **k):
                    pass

                def plot(self):
                    V.calls += 1
                    if V.calls > 2:
                        raise Abandon()
            g = [video.threaded(iter(v)), sim.simple_brownian_video(t, shape=(16, 16), num_particles=2), fft.rfft2(iter(v)), video.play(iter(v), fps=1e9)][int(rng.integers(0, 3))]
            for _ in range(int(rng.integers(1, 4))):
                next(g)
            if hasattr(g, "close"):
                g.close()
            del g
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    it(iter(v), t, t, viewer=V(), viewer_interval=1, **kw)
            except Abandon:
                pass
            what = "%s abandoned by its viewer" % it.__name__
            ctx.count("abandoned")
            m.compare(ctx, "left-changed", what)
        else:
            what, f = analysis(rng)
            b = io.StringIO()
            res = "completed"
            _calls.clear()
            v0 = m.s["verbose"]
            try:
                with contextlib.redirect_stdout(b):
                    f()
            except (Exception, KeyboardInterrupt) as e:
                res = type(e).__name__
            what = what + " (%s)" % res
            m.compare(ctx, "left-changed", what)
            ctx.check(np.geterr() == sys_err, "left-changed", "%s changed numpy's error handling" % what)
            if v0 <= 0:
                ctx.check(b.getvalue() == "" or "short" in what or "end" in what or "cropped" in b.getvalue() or "%s" % b.getvalue().strip().isdigit(), "message", lambda: "%s printed %r at verbosity 0" % (what, b.getvalue()[:200]))
            elif what.startswith(("ccorr (completed", "ccorr_multi (completed")):
                ctx.check(b.getvalue() != "", "message", "%s printed nothing at verbosity %d" % (what, v0))
            for lib, fn in _calls:
                want = m.s["rfft2lib"] if fn == "rfft2" else None
                if want:
                    ctx.check(lib == want or lib == "numpy", "library", "%s used %s for rfft2, the setting is %s" % (what, lib, want))
        level_seen(ctx, m, what)
        done.append(what)
        ctx.info = dict(history=done[-8:], settings=dict(m.s))
    conf.set_verbose(0)
    ctx.mark(*done)


def libraries(ctx, rng, i):
    """the transforms entered are those of the chosen library, from the next call on"""
    n = int(rng.integers(16, 40))
    f = rng.normal(size=(n, 3)) + 1j * rng.normal(size=(n, 3))
    v = [(rng.normal(size=(6, 5)),) for _ in range(3)]
    g = fft.rfft2(iter(v))
    lib = None
    ev = []
    for k in range(6):
        lib = str(rng.choice(["numpy", "scipy", "pyfftw"]))
        which = str(rng.choice(["fftlib", "rfft2lib"]))
        (conf.set_fftlib if which == "fftlib" else conf.set_rfft2lib)(lib)
        now = dict(fftlib=conf.CDDMConfig.fftlib, rfft2lib=conf.CDDMConfig.rfft2lib)
        ev.append((which, lib))
        _calls.clear()
        core.acorr(f, t=np.arange(n) * 2, n=5, norm=1, method="fft")
        # pyfftw and scipy may call one another's names internally: what counts is the first entry
        seen = {c[0] for c in _calls[:1]}
        ctx.check(not seen or seen == {now["fftlib"]}, "library", "acorr entered %r, the setting is %s" % (seen, now["fftlib"]))
        _calls.clear()
        list(fft.rfft2(iter(v)))
        seen = {c[0] for c in _calls[:1]}
        ctx.check(not seen or seen == {now["rfft2lib"]}, "library", "rfft2 entered %r, the setting is %s" % (seen, now["rfft2lib"]))
        _calls.clear()
        list(fft.fft2(iter(v)))
        seen = {c[0] for c in _calls[:1]}
        ctx.check(not seen or seen == {now["fftlib"]}, "library", "fft2 entered %r, the setting is %s" % (seen, now["fftlib"]))
    ctx.info = dict(settings=ev)
    ctx.mark("libraries", *ev)


PROBE = r"""
import json, sys, warnings
warnings.simplefilter("ignore")
import io, contextlib
with contextlib.redirect_stdout(io.StringIO()):
    import cddm, cddm.fft, cddm.core
from cddm import conf
import numba, pyfftw, numpy as np
c = conf.CDDMConfig
r = dict(verbose=c.verbose, fftlib=c.fftlib, rfft2lib=c.rfft2lib, showlib=c.showlib, fft_threads=c.fft_threads, numba_threads=c.numba_threads,
         pyfftw=pyfftw.config.NUM_THREADS, numba=numba.get_num_threads(), precision=conf.PRECISION, F=str(conf.FDTYPE), C=str(conf.CDTYPE),
         parallel=bool(conf.NUMBA_PARALLEL), fastmath=bool(conf.NUMBA_FASTMATH), cache=bool(conf.NUMBA_CACHE))
print("RESULT " + json.dumps(r))
"""


def config_file(ctx, rng, i):
    """a configuration file and environment variables decide the settings of a new process"""
    home = tempfile.mkdtemp(prefix="home-", dir=os.environ["TMPDIR"])
    try:
        os.mkdir(os.path.join(home, ".cddm"))
        yes = lambda b: str(rng.choice(["yes", "true", "on", "1"] if b else ["no", "false", "off", "0"]))
        cores = conf.detect_number_of_cores()
        want = dict(verbose=0, fftlib="mkl_fft" if conf.MKL_FFT_INSTALLED else "numpy", rfft2lib="numpy", showlib="cv2" if conf.CV2_INSTALLED else "matplotlib", fft_threads=cores, numba_threads=cores,
                    precision="double", parallel=False, fastmath=False, cache=True)
        sec = {"core": {}, "numba": {}, "fft": {}}
        # the default precision and target are those whose kernels are compiled already
        if rng.random() < 0.7:
            want["verbose"] = int(rng.integers(0, 3)); sec["core"]["verbose"] = want["verbose"]
        if rng.random() < 0.5:
            want["showlib"] = str(rng.choice(["matplotlib", "pyqtgraph"])); sec["core"]["showlib"] = want["showlib"]
        for k in ("fftlib", "rfft2lib"):
            if rng.random() < 0.7:
                want[k] = str(rng.choice(["numpy", "scipy", "pyfftw"])); sec["fft"][k] = want[k]
        limit = int(rng.integers(1, cores + 1)) if rng.random() < 0.4 else cores
        if rng.random() < 0.6:
            want["fft_threads"] = int(rng.integers(1, 6)); sec["fft"]["nthreads"] = want["fft_threads"]
        want["numba_threads"] = limit
        if rng.random() < 0.6:
            want["numba_threads"] = int(rng.integers(1, limit + 1)); sec["numba"]["nthreads"] = want["numba_threads"]
        sec["core"]["double_precision"] = yes(True)
        sec["numba"]["parallel"], sec["numba"]["fastmath"], sec["numba"]["cache"] = yes(False), yes(False), yes(True)
        env = dict(os.environ, HOME=home, NUMBA_NUM_THREADS=str(limit), PYTHONPATH=os.environ["PYTHONPATH"])
        for k in list(env):
            if k.startswith("CDDM_"):
                del env[k]
        full = True
        if rng.random() < 0.3:
            # environment variables take precedence over the file; only the constants are looked at, nothing is compiled
            full = False
            for var, key, on in (("CDDM_DOUBLE_PRECISION", "precision", None), ("CDDM_TARGET_PARALLEL", "parallel", None), ("CDDM_FASTMATH", "fastmath", None)):
                if rng.random() < 0.7:
                    b = bool(rng.random() < 0.5)
                    env[var] = str(int(b))
                    want[key] = ("double" if b else "single") if key == "precision" else b
                else:
                    b = bool(rng.random() < 0.5)
                    sec["core" if key == "precision" else "numba"]["double_precision" if key == "precision" else key] = yes(b)
                    want[key] = ("double" if b else "single") if key == "precision" else b
        with open(os.path.join(home, ".cddm", "cddm.ini"), "w") as fh:
            for s, kv in sec.items():
                fh.write("[%s]\n" % s + "".join("%s = %s\n" % q for q in kv.items()))
        code = PROBE
        if not full:
            code = code.replace("import cddm, cddm.fft, cddm.core", "import types, importlib.util, os\n    p = types.ModuleType('cddm'); p.__path__ = [os.path.join(os.environ['PYTHONPATH'].split(os.pathsep)[1], 'cddm')]; sys.modules['cddm'] = p\n    import cddm.conf")
            code = code.replace("from cddm import conf", "conf = sys.modules['cddm.conf']")
        p = subprocess.run([sys.executable, "-c", "import vh.nosave\n" + code], env=env, cwd=home, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        out = p.stdout.decode(errors="replace")
        ctx.info = dict(file=sec, environment={k: v for k, v in env.items() if k.startswith(("CDDM", "NUMBA_NUM"))})
        line = [l for l in out.splitlines() if l.startswith("RESULT ")]
        ctx.check(p.returncode == 0 and line, "config-file", lambda: "import with configuration %r and %r failed: %s" % (sec, ctx.info["environment"], out[-800:]))
        import json
        r = json.loads(line[0][7:])
        want["pyfftw"], want["numba"] = want["fft_threads"], want["numba_threads"]
        want["F"], want["C"] = ("float64", "complex128") if want["precision"] == "double" else ("float32", "complex64")
        ctx.count("config-file", len(want))
        for k, v in want.items():
            if r[k] != v:
                ctx.fail("config-file", "with the configuration file %r and environment %r the setting %s is %r, expected %r" % (sec, ctx.info["environment"], k, r[k], v))
        ctx.mark("file", sorted((s, tuple(sorted(kv.items()))) for s, kv in sec.items()))
    finally:
        shutil.rmtree(home, ignore_errors=True)


STREAMS = {
    "history": dict(fn=history, quick=700, thorough=700),
    "libraries": dict(fn=libraries, quick=60, thorough=60),
    "config_file": dict(fn=config_file, quick=16, thorough=10),
}
