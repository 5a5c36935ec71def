"""C24: what a viewer shows equals the analysis functions applied with its current settings"""
import warnings
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from vh import gen
from cddm import core, multitau as mt, norm as nm, viewer, map as cmap
from cddm.fft import rfft2_crop

PROP = "C24"
RULE = ("random histories of setter calls (k mask, angle, sector, k step, norm, scale, fold, log averaging, representation, plotting and its sliders and buttons, new data of the same or another shape, rejected values) on every viewer class with real and complex, auto and cross, cropped, masked and mask-compressed data; after every step "
        "the curve and the wavevector reported are compared with normalization, folding, averaging and a pixel by pixel selection done by hand for a model of the settings; distinct by (viewer, data kind, history)")
ASSUMPTIONS = ["spectra are half-plane spectra of real images; the column that stands for both directions has a symmetric mask", "the sliders' own values are what a slider event applies",
               "frames of one camera have more than two rows (see known finding of C05)", "a history stays with data kinds that support the current norm, or sets a new one"]
FLOORS = {"quick": {"curve": 2500, "delays": 2500, "k": 1200, "valid-mask": 1500, "rejected": 150, "line": 60, "widget": 60, "array-curve": 900, "kept": 1000, "frame": 200, "missing": 100},
          "thorough": {"curve": 40000, "delays": 40000, "k": 20000, "valid-mask": 25000, "rejected": 2500, "line": 900, "widget": 900, "array-curve": 14000, "kept": 16000, "frame": 3000, "missing": 1500}}
REPR = {"real": np.real, "imag": np.imag, "abs": np.abs, "phase": np.angle}
MODES = tuple(REPR)


def some_frames(rng, N, shape):
    f = np.cumsum(rng.normal(size=(N,) + shape), axis=0) * 0.3 + rng.normal(size=(N,) + shape) + 1j * (np.cumsum(rng.normal(size=(N,) + shape), axis=0) * 0.2 + rng.normal(size=(N,) + shape)) + 2
    return f * 10.0 ** int(rng.integers(-1, 2))


def corr_set(rng, shape, multi):
    """data tuple, background, variance of random frames"""
    auto, cplx = bool(rng.random() < 0.4), bool(rng.random() < 0.35)
    method = str(rng.choice(["corr", "corr", "diff", "fft"])) if not (multi or cplx) else "corr"
    norm = {"diff": [1, 2, 5, 6], "fft": [1, 2, 3, 5, 6, 7], "corr": [1, 2, 3, 5, 6, 7]}[method]
    if method == "diff":
        norm = [2, 6] if not auto else [2]
    elif cplx and auto:
        norm = [1, 5]
    norm = int(rng.choice(norm))
    f = some_frames(rng, int(rng.integers(16, 33)) if multi else int(rng.integers(6, 20)), shape)
    g = f + 0.5 * some_frames(rng, len(f), shape)
    if multi:
        kw = dict(level_size=int(rng.choice([6, 8])), norm=norm if norm not in (6, 7) or not auto else 3, method=method, complex=cplx, binning=int(rng.choice([0, 1])))
        d = mt.acorr_multi(f, **kw) if auto else mt.ccorr_multi(f, g, **kw)
    else:
        kw = dict(n=int(rng.integers(4, 9)), norm=norm, method=method, complex=cplx)
        if cplx:
            kw["n"] = min(kw["n"], len(f) // 2)
        d = core.acorr(f, **kw) if auto else core.ccorr(f, g, **kw)
    bg, var = core.stats(f) if auto else core.stats(f, g)
    drop = rng.random()
    if drop < 0.08:
        bg, var = None, None
    return dict(data=d, bg=bg, var=var, auto=auto, cplx=cplx, multi=multi, method=method, norm=norm, shape=shape)


def take(d, mask):
    """data with only the computed pixels, as calculated from a masked video"""
    pix = d["shape"]
    out = dict(d)
    if d["multi"]:
        fast, slow = d["data"]
        out["data"] = (tuple(pick_axes(x, pix, mask, 0) for x in fast), tuple(pick_axes(x, pix, mask, 1) for x in slow))
    else:
        out["data"] = tuple(pick_axes(x, pix, mask, 0) for x in d["data"])
    for q in ("bg", "var"):
        v = d[q]
        out[q] = None if v is None else (v[mask] if not isinstance(v, (tuple, list)) else type(v)(w[mask] for w in v))
    return out


def pick_axes(x, pix, mask, lead):
    """pixels of one piece of a data tuple; counts have no pixel axes"""
    if x is None or x.ndim < lead + len(pix) + 1:
        return x
    return x[(slice(None),) * lead + (mask,)]


def geometry(rng):
    h, w = int(rng.integers(3, 12)), int(rng.integers(3, 12))
    if rng.random() < 0.4:
        w = h
    if rng.random() < 0.4:
        fh, fw = 2 * int(rng.integers(1, (h - 1) // 2 + 1)) + 1, 2 * int(rng.integers(1, (w - 1) // 2 + 1)) + 1
    else:
        fh, fw = h, w
    give = not (h == w and fw % 2) or rng.random() < 0.5
    return (h, w) if give else None, fh, fw


def computed_mask(rng, fh, fw):
    m = rng.random((fh, fw // 2 + 1)) < 0.7
    if fw % 2 == 0:
        c = m[:, -1]
        m[:, -1] = c | c[(-np.arange(fh)) % fh]
    m[0, 0] = True
    return m


class Model:
    """the settings of a viewer, and the curve they stand for"""

    def __init__(self, kind, image):
        self.kind, self.image = kind, image
        self.k, self.angle, self.sector, self.kstep = 0, 0, 5, 1
        self.mode, self.norm, self.scale, self.fold, self.size, self.semilogx = "real", None, False, None, None, True
        self.cmask, self.full, self.set = None, None, None

    def pixels(self):
        """half-plane pixels selected and whether each stands for the opposite wavevector; wavevectors of the selected pixels"""
        fh, fw = self.full
        kmap, amap = cmap.fft2_kangle(fh, fw, self.image)
        sel = np.asarray(cmap.fft2_sector_indexmap(kmap, amap, self.angle, self.sector, self.kstep)) == int(self.k)
        pix, ks = [], []
        for p in range(fh):
            for q in range(fw // 2 + 1):
                opposite = q > 0 and sel[-p % fh, -q % fw]
                if (sel[p, q] or opposite) and (self.cmask is None or self.cmask[p, q]):
                    pix.append((p, q, bool(opposite)))
        for p, q in np.argwhere(sel):
            hp = (p, q) if q <= fw // 2 else (-p % fh, -q % fw)
            if self.cmask is None or self.cmask[hp]:
                ks.append(kmap[p, q])
        return pix, ks

    def curve(self, d, pick):
        """(t, values per picked pixel) of the data set d; raises where the settings do not fit the data"""
        if self.kind == "data":
            return np.asarray(d["t"]), pick(d["data"]), False
        if not d["multi"]:
            data = nm.normalize(d["data"], d["bg"], d["var"], norm=self.norm, scale=self.scale)
            cplx = np.iscomplexobj(data)
        else:
            data = mt.normalize_multi(d["data"], d["bg"], d["var"], norm=self.norm, scale=self.scale)
            cplx = np.iscomplexobj(data[0])
        if cplx:
            fold = self.fold
            if fold is None:
                if d["bg"] is None and d["var"] is None:
                    raise ValueError("fold")
                fold = not d["auto"]
            if fold:
                data = (nm.fold_data(data[0], 1), nm.fold_data(data[1], 1)) if d["multi"] else nm.fold_data(data)
        if d["multi"]:
            if self.semilogx:
                t, data = mt.log_merge(*data, fold=False)
            else:
                data = data[0]
                t = np.arange(data.shape[-1])
        elif self.size is not None:
            t, data = mt.log_average(data, self.size, fold=False)
        else:
            t = np.arange(data.shape[-1])
        return t, pick(data), cplx


def digest(d):
    out = []

    def walk(x):
        if isinstance(x, (tuple, list)):
            for y in x:
                walk(y)
        elif isinstance(x, np.ndarray):
            out.append(x.tobytes())
    walk((d["data"], d["bg"], d["var"]))
    return out


def compare(ctx, v, m, pick_avg, key, check_k=True):
    """curve shown against the model; -> the curve, None if the settings cannot be used with the data"""
    d = m.set
    before = digest(m.given)
    try:
        want = pick_avg()
    except ValueError:
        want = None
    if want is None:
        ctx.raises(ValueError, v.get_data, "rejected", "settings that do not fit the data")
        return None
    t, avg, scale = want
    with np.errstate(all="ignore"):
        gt, gy = v.get_data()
    ctx.equal(gt, t, "delays")
    if m.mode == "phase":
        ctx.shape(np.shape(gy), avg.shape, key)
        ctx.count(key)
        z = np.exp(1j * np.asarray(gy))
        ok = (np.abs(z * np.abs(avg) - avg) <= 1e-9 * scale) | ~np.isfinite(avg)
        ctx.check(bool(ok.all()), key, lambda: "phase %r of %r" % (gy, avg))
    else:
        ctx.close(gy, REPR[m.mode](avg), key, rtol=1e-9, scale=scale)
    ctx.check(digest(m.given) == before, "kept", "data given to the viewer was modified")
    return gt, gy


def average(m):
    """-> function evaluating (t, average, scale) of the selected pixels"""
    def f():
        pix, ks = m.pixels()

        def pick(a):
            return np.stack([a[..., p, q, :] for p, q, o in pix], axis=-2)
        with np.errstate(all="ignore"):
            t, vals, cplx = m.curve(m.set, pick)
        vals = vals.copy()
        for i, (p, q, o) in enumerate(pix):
            if o:
                vals[..., i, :] = np.conj(vals[..., i, :])
        ok = ~np.isnan(vals)
        with np.errstate(all="ignore"):
            avg = np.where(ok, vals, 0).sum(-2) / np.where(ok.sum(-2) > 0, ok.sum(-2), np.nan)
        fin = np.abs(vals[np.isfinite(vals)])
        return t, avg, float(fin.max()) if fin.size and fin.max() > 0 else 1.0
    return f


def new_data(rng, m, shape):
    """a data set for the half-plane shape; what is given to the viewer has only the computed pixels if compressed"""
    if m.kind == "data":
        n = int(rng.integers(2, 9))
        a = rng.normal(size=shape + (n,)) * 10.0 ** int(rng.integers(-2, 3))
        if rng.random() < 0.5:
            a = a + 1j * rng.normal(size=a.shape) * np.abs(a).max()
        if rng.random() < 0.3:
            a[rng.random(shape) < 0.2] = np.nan
        t = None if rng.random() < 0.5 else np.cumsum(rng.integers(1, 4, n))
        d = dict(data=a, t=np.arange(n) if t is None else t, given_t=t, bg=None, var=None, multi=False, shape=shape)
    else:
        d = corr_set(rng, shape, m.kind == "multi")
    return d


def give(v, m, d, compressed):
    m.set = d
    g = d
    if compressed:
        if m.kind == "data":
            g = dict(d, data=d["data"][m.cmask])
        else:
            g = take(d, m.cmask)
    m.given = g
    if m.kind == "data":
        v.set_data(g["data"], g["given_t"]) if g["given_t"] is not None else v.set_data(g["data"])
    else:
        v.set_data(g["data"], background=g["bg"], variance=g["var"])


NORMS = [1, 2, 3, 5, 6, 7, 9, 11, 13, 14, 15, 0, 4, 8, None]


def k_viewers(ctx, rng, i):
    kind = ("data", "corr", "corr", "multi")[i % 4]
    image, fh, fw = geometry(rng)
    m = Model(kind, image)
    m.full = (fh, fw)
    masked = rng.random() < 0.4
    compressed = False
    if masked:
        m.cmask = computed_mask(rng, fh, fw)
        compressed = bool(rng.random() < 0.6)
    m.semilogx = bool(rng.random() < 0.7)
    kw = dict(semilogx=m.semilogx, shape=image, mask=m.cmask)
    if kind != "data":
        m.norm = None if rng.random() < 0.6 else int(rng.choice([1, 2, 3]))
        m.scale = bool(rng.random() < 0.5)
        m.fold = [None, True, False][int(rng.integers(3))]
        kw.update(norm=m.norm, scale=m.scale, fold=m.fold)
        if kind == "corr":
            m.size = None if rng.random() < 0.5 else int(rng.choice([2, 3, 4]))
            kw["size"] = m.size
    v = {"data": viewer.DataViewer, "corr": viewer.CorrViewer, "multi": viewer.MultitauViewer}[kind](**kw)
    hist = []
    ctx.info = dict(kind=kind, image=image, full=(fh, fw), mask=None if m.cmask is None else m.cmask.tolist(), compressed=compressed, kw={a: b for a, b in kw.items() if a != "mask"}, history=hist)
    ctx.raises(ValueError, v.get_data, "missing", "no data")
    ctx.raises(ValueError, v.get_k, "missing", "no mask")
    first = rng.random() < 0.2 and image is not None    # the mask may be chosen before there is data
    if not first:
        give(v, m, new_data(rng, m, (fh, fw // 2 + 1)), compressed)
        hist.append("set_data")
        ctx.raises(ValueError, v.get_data, "missing", "no mask")
    plotting = i % 12 == 5
    have = False

    def do_mask():
        nonlocal have
        a = {}
        if rng.random() < 0.6:
            a["angle"] = float(rng.choice([0, 30, 45, 90, -45, -90, 60, 120, -135, 180]))
        if rng.random() < 0.7:
            a["sector"] = float(rng.choice([5, 30, 60, 90, 120, 180]))
        if rng.random() < 0.4:
            a["kstep"] = float(rng.choice([1, 0.5, 1.5, 2]))
        k = int(rng.integers(0, max(2, max(fh, fw) // 2 + 1)))
        hist.append(("set_mask", k, a))
        ok = v.set_mask(k, **a)
        m.k, m.angle, m.sector, m.kstep = k, a.get("angle", 0), a.get("sector", 5), a.get("kstep", 1)
        have = True
        pix, ks = m.pixels()
        if m.set is not None:
            ctx.check(bool(ok) == bool(ks), "valid-mask", lambda: "set_mask returned %r for %d pixels" % (ok, len(ks)))

    def verify():
        pix, ks = m.pixels()
        if not pix or not ks:
            return
        ctx.check(abs(v.get_k() - np.mean(ks)) <= 1e-12 * max(1, np.mean(ks)), "k", lambda: "get_k %r, expected %r" % (v.get_k(), np.mean(ks)))
        compare(ctx, v, m, average(m), "curve")

    def draw():
        pix, ks = m.pixels()
        if not pix:
            return
        try:
            with np.errstate(all="ignore"):
                average(m)()
        except ValueError:
            return
        hist.append("plot")
        v.plot()
        if kind != "data" and not draw.done:
            if m.norm is None:
                m.norm = v.norm
        draw.done = True
        shown()

    def shown():
        pix, ks = m.pixels()
        if not pix:
            return
        t, avg, scale = average(m)()
        line = v.fig.axes[0].lines[0]
        ctx.equal(np.asarray(line.get_xdata()), t, "line")
        if m.mode == "phase":
            ctx.check(bool(((np.abs(np.exp(1j * np.asarray(line.get_ydata())) * np.abs(avg) - avg) <= 1e-9 * scale) | ~np.isfinite(avg)).all()), "line", "phase")
        else:
            ctx.close(np.asarray(line.get_ydata()), REPR[m.mode](avg), "line", rtol=1e-9, scale=scale)

    draw.done = False
    if first:
        do_mask()
        give(v, m, new_data(rng, m, (fh, fw // 2 + 1)), compressed)
        hist.append("set_data")
        verify()
    for step in range(int(rng.integers(4, 11))):
        r = rng.random()
        if r < 0.35 or not have:
            do_mask()
        elif r < 0.5:
            if kind == "data":
                continue
            want = NORMS[int(rng.integers(len(NORMS)))]
            hist.append(("set_norm", want))
            d = m.set
            data = d["data"][0] if d["multi"] else d["data"]
            try:
                nm.normalize(data, None, None, norm=want)
                fits = True
            except ValueError as e:
                # missing background or variance is not a matter of the norm
                fits = "background" in str(e) or "variance" in str(e)
            except Exception:
                fits = True
            try:
                v.set_norm(want)
            except ValueError:
                ctx.check(not fits, "rejected", lambda: "set_norm(%r) is refused, normalize accepts it" % want)
            else:
                ctx.check(fits, "rejected", lambda: "set_norm(%r) accepted, normalize refuses it" % want)
                m.norm = v.norm if want is None else want
        elif r < 0.6:
            m.mode = v.mode = str(rng.choice(MODES))
            hist.append(("mode", m.mode))
        elif r < 0.7 and kind != "data":
            q = str(rng.choice(["scale", "fold", "size"]))
            if q == "scale":
                m.scale = v.scale = not m.scale
            elif q == "fold":
                m.fold = v.fold = [None, True, False][int(rng.integers(3))]
            elif kind == "corr":
                m.size = v.size = None if rng.random() < 0.4 else int(rng.choice([2, 3, 4, 6]))
            hist.append((q, getattr(m, q)))
        elif r < 0.9:
            if rng.random() < 0.4 and m.cmask is None:
                image2, fh, fw = geometry(rng) if image is None else (image, *crop_of(rng, image))
                if image is None and image2 is not None:
                    fh = fw = image2[0] if image2[0] % 2 else image2[0] + 1
                m.full = (fh, fw)
            d = new_data(rng, m, (fh, fw // 2 + 1))
            hist.append(("set_data", (fh, fw)))
            give(v, m, d, compressed)
            if kind != "data":
                # data that does not support the current norm needs another one
                try:
                    with np.errstate(all="ignore"):
                        m.curve(d, lambda a: a)
                except ValueError:
                    v.set_norm(None)
                    m.norm = v.norm
                    hist.append("set_norm(None)")
        elif plotting:
            if not draw.done or rng.random() < 0.3:
                draw()
            elif image is not None or m.full == (fh, fw):
                widgets(ctx, rng, v, m, kind, hist, shown)
        verify()
    if plotting:
        draw()
        if draw.done:
            for _ in range(3):
                widgets(ctx, rng, v, m, kind, hist, shown)
                verify()
    plt.close("all")
    ctx.mark(kind, image, fh, fw, masked, compressed, str([x if isinstance(x, str) else x[0] for x in hist]))


def crop_of(rng, image):
    h, w = image
    if rng.random() < 0.3:
        return h, w
    return 2 * int(rng.integers(1, (h - 1) // 2 + 1)) + 1, 2 * int(rng.integers(1, (w - 1) // 2 + 1)) + 1


def widgets(ctx, rng, v, m, kind, hist, shown):
    """move a slider or press a button of the plot"""
    def usable(**kw):
        old = {a: getattr(m, a) for a in kw}
        for a, b in kw.items():
            setattr(m, a, b)
        try:
            pix, ks = m.pixels()
            with np.errstate(all="ignore"):
                if not pix:
                    return False
                average(m)()
            return True
        except ValueError:
            return False
        finally:
            for a, b in old.items():
                setattr(m, a, b)
    q = str(rng.choice(["k", "angle", "sector", "mode", "norm"]))
    cur = dict(k=int(round(v.kindex.val)), angle=v.angleindex.val, sector=v.sectorindex.val)
    if q in cur:
        s = {"k": v.kindex, "angle": v.angleindex, "sector": v.sectorindex}[q]
        val = {"k": lambda: int(rng.integers(0, int(s.valmax) + 1)), "angle": lambda: float(rng.choice([-90, -45, 0, 45, 80])), "sector": lambda: float(rng.choice([10, 60, 120, 180]))}[q]()
        new = dict(cur, **{q: val})
        if not usable(**new):
            return
        hist.append(("slider", q, val))
        s.set_val(val)
    elif q == "mode":
        new = dict(cur, mode=MODES[int(rng.integers(4))])
        if not usable(**new):
            return
        hist.append(("button", new["mode"]))
        v.selectorindex.set_active(MODES.index(new["mode"]))
    else:
        if kind == "data":
            return
        # pressed buttons name the norm; a norm that the data does not support changes nothing
        b = int(rng.integers(4))
        st = list(v.check.get_status())
        st[b] = not st[b]
        want = (2 if st[0] else 1) | (4 if st[1] else 0) | (3 if st[2] else 0) | (8 if st[3] else 0)
        if not usable(**cur):
            return
        data = m.set["data"][0] if m.set["multi"] else m.set["data"]
        probe = type(v)()
        probe.data = m.set["data"]
        try:
            probe.set_norm(want)
            fits = True
        except ValueError:
            fits = False
        if not fits:
            st[b] = not st[b]
            want = (2 if st[0] else 1) | (4 if st[1] else 0) | (3 if st[2] else 0) | (8 if st[3] else 0)
            try:
                probe.set_norm(want)
            except ValueError:
                return      # the buttons do not name a norm of this data (new data since)
        new = dict(cur, norm=want)
        if not usable(**new):
            return
        hist.append(("check", b, want))
        v.check.set_active(b)
        ctx.check(list(map(bool, v.check.get_status())) == list(map(bool, st)), "widget", lambda: "buttons %r, expected %r" % (v.check.get_status(), st))
    for a, b in new.items():
        setattr(m, a, b)
    ctx.count("widget")
    shown()


def array_viewers(ctx, rng, i):
    kind = ("data", "corr", "multi")[i % 3]
    m = Model(kind, None)
    nd = int(rng.integers(1, 4)) if kind == "data" else 2
    axes = tuple(range(int(rng.integers(1, nd + 1)))) if kind == "data" or rng.random() < 0.5 else (0,)
    m.semilogx = bool(rng.random() < 0.7)
    kw = dict(semilogx=m.semilogx, axes=axes)
    if kind != "data":
        m.norm = None if rng.random() < 0.6 else int(rng.choice([1, 2, 3]))
        m.scale = bool(rng.random() < 0.5)
        m.fold = [None, True, False][int(rng.integers(3))]
        if kind == "corr":
            m.size = None if rng.random() < 0.5 else int(rng.choice([2, 3, 4]))
        kw.update(norm=m.norm, scale=m.scale, fold=m.fold, size=m.size)
    v = {"data": viewer.DataArrayViewer, "corr": viewer.CorrArrayViewer, "multi": viewer.MultitauArrayViewer}[kind](**kw)
    hist = []
    ctx.info = dict(kind=kind, kw=kw, history=hist)
    ctx.raises(ValueError, v.get_data, "missing", "no data")
    idx = (0,) * len(axes)

    def fresh():
        s = tuple(int(x) for x in rng.integers(3, 6, nd))
        give(v, m, new_data(rng, m, s), False)
        hist.append(("set_data", s))
        if kind != "data":
            try:
                with np.errstate(all="ignore"):
                    m.curve(m.set, lambda a: a)
            except ValueError:
                v.set_norm(None)
                m.norm = v.norm
        return s

    def avg():
        with np.errstate(all="ignore"):
            # pixel axes precede the delay axis
            t, a, c = m.curve(m.set, lambda a: a[idx])
        fin = np.abs(a[np.isfinite(a)])
        a2 = a.reshape((-1, a.shape[-1]))
        return t, a2.mean(0), float(fin.max()) if fin.size and fin.max() > 0 else 1.0

    s = fresh()
    for step in range(int(rng.integers(4, 11))):
        compare(ctx, v, m, avg, "array-curve")
        r = rng.random()
        if r < 0.4:
            idx = tuple(int(rng.integers(-s[a], s[a])) for a in axes)
            hist.append(("set_indices", idx))
            v.set_indices(*idx)
        elif r < 0.6:
            m.mode = v.mode = str(rng.choice(MODES))
            hist.append(("mode", m.mode))
        elif r < 0.8:
            s = fresh()
            if any(not -s[a] <= q < s[a] for a, q in zip(axes, idx)):
                idx = tuple(int(rng.integers(-s[a], s[a])) for a in axes)
                v.set_indices(*idx)
        elif kind != "data":
            q = str(rng.choice(["scale", "fold", "size", "norm"]))
            if q == "scale":
                m.scale = v.scale = not m.scale
            elif q == "fold":
                m.fold = v.fold = [None, True, False][int(rng.integers(3))]
            elif q == "size":
                if kind == "corr":
                    m.size = v.size = None if rng.random() < 0.4 else int(rng.choice([2, 3, 4, 6]))
            else:
                want = NORMS[int(rng.integers(len(NORMS)))]
                try:
                    v.set_norm(want)
                    m.norm = v.norm if want is None else want
                except ValueError:
                    pass
            hist.append((q, getattr(m, q)))
    if i % 7 == 3:
        try:
            t, a, sc = avg()
        except ValueError:
            pass
        else:
            hist.append("plot")
            v.plot()
            line = v.fig.axes[0].lines[0]
            ctx.equal(np.asarray(line.get_xdata()), t, "line")
            if m.mode != "phase":
                ctx.close(np.asarray(line.get_ydata()), REPR[m.mode](a), "line", rtol=1e-9, scale=sc)
            if kind != "data" and m.norm is None:
                m.norm = v.norm
            if kind != "data":
                n = int(m.norm)
                ctx.check(list(map(bool, v.check.get_status())) == [bool(n & 2), bool(n & 4), n & 3 == 3, n & 8 == 8], "widget", lambda: "buttons %r of norm %d" % (v.check.get_status(), n))
            for event in range(int(rng.integers(1, 5))):
                q = str(rng.choice(["slider", "mode", "norm"]))
                new = None
                if q == "slider":
                    ax = axes[int(rng.integers(len(axes)))]
                    if int(v.sliders[ax].valmax) != s[ax] - 1:
                        continue
                    val = int(rng.integers(-s[ax] + 1, s[ax]))
                    hist.append(("slider", ax, val))
                    v.sliders[ax].set_val(val)
                    ctx.check(int(v.sliders[ax].val) == val, "widget")
                elif q == "mode":
                    m.mode = MODES[int(rng.integers(4))]
                    hist.append(("button", m.mode))
                    v.selectorindex.set_active(MODES.index(m.mode))
                elif kind != "data":
                    b = int(rng.integers(4))
                    st = list(map(bool, v.check.get_status()))
                    st[b] = not st[b]
                    want = (2 if st[0] else 1) | (4 if st[1] else 0) | (3 if st[2] else 0) | (8 if st[3] else 0)
                    probe = type(v)()
                    probe.data = m.set["data"]
                    try:
                        probe.set_norm(want)
                        m.norm = want
                    except ValueError:
                        st[b] = not st[b]
                        back = (2 if st[0] else 1) | (4 if st[1] else 0) | (3 if st[2] else 0) | (8 if st[3] else 0)
                        try:
                            probe.set_norm(back)
                        except ValueError:
                            continue
                        m.norm = back
                    hist.append(("check", b, m.norm))
                    v.check.set_active(b)
                    ctx.check(list(map(bool, v.check.get_status())) == st, "widget", lambda: "buttons %r, expected %r" % (v.check.get_status(), st))
                else:
                    continue
                if q != "norm":
                    idx = tuple(int(v.sliders[b].val) for b in axes)
                t, a, sc = avg()
                line = v.fig.axes[0].lines[0]
                ctx.equal(np.asarray(line.get_xdata()), t, "line")
                if m.mode != "phase":
                    ctx.close(np.asarray(line.get_ydata()), REPR[m.mode](a), "line", rtol=1e-9, scale=sc)
                compare(ctx, v, m, avg, "array-curve")
    plt.close("all")
    ctx.mark("array", kind, axes, str([x if isinstance(x, str) else x[0] for x in hist]))


def representations(ctx, rng, i):
    a = rng.normal(size=tuple(rng.integers(1, 5, 2))) * 10.0 ** int(rng.integers(-3, 4))
    if rng.random() < 0.6:
        a = a + 1j * rng.normal(size=a.shape)
    for mode in MODES:
        s = mode if rng.random() < 0.5 else " " + mode.upper() + " "
        ctx.close(viewer.data_repr(a, s), REPR[mode](a), "representation", rtol=1e-14)
    ctx.raises(ValueError, lambda: viewer.data_repr(a, "modulus"), "rejected", "representation")
    ctx.mark("repr", a.shape, a.dtype)


def video_viewer(ctx, rng, i):
    N, cams = int(rng.integers(3, 12)), int(rng.integers(0, 3))
    shape = tuple(int(x) for x in rng.integers(2, 6, 2))
    fr = [rng.normal(size=shape) for _ in range(N * max(1, cams))]
    video = fr if cams == 0 else [tuple(fr[k * cams:(k + 1) * cams]) for k in range(N)]
    if cams and rng.random() < 0.3:
        video = [list(f) for f in video]
    if cams == 0 and rng.random() < 0.4:
        video = np.asarray(video)
    cam = int(rng.integers(0, cams)) if cams else 0
    f = [None, np.abs, lambda x: np.log1p(np.abs(x))][int(rng.integers(3))]
    src = str(rng.choice(["list", "iterator"]))
    given = video if src == "list" else iter(video)
    kw = dict(id=cam)
    if f is not None:
        kw["norm_func"] = f
    if src == "iterator":
        ctx.raises(Exception, lambda: viewer.VideoViewer(iter(video)), "rejected", "no count")
    v = viewer.VideoViewer(given, N if src == "iterator" or rng.random() < 0.5 else None, **kw)
    ctx.info = dict(N=N, cams=cams, cam=cam, source=src)

    def verify(k):
        x = video[k] if cams == 0 else video[k][cam]
        x = f(x) if f is not None else x
        ctx.equal(np.asarray(v.img.get_array()), np.asarray(x), "frame")

    verify(0)
    at = 0
    for _ in range(6):
        if src == "list":
            at = int(rng.integers(0, N))
        else:
            at = min(N - 1, at + int(rng.integers(0, 3)))
        v.sframe.set_val(at)
        verify(at)
        if rng.random() < 0.5:
            # buttons: one frame forward; for lists also one frame back
            fwd = src == "iterator" or rng.random() < 0.5
            press(v, v.axnext if fwd else v.axprev)
            at = min(at + 1, N - 1) if fwd else max(at - 1, 0)
            verify(at)
    plt.close("all")
    ctx.mark("video", N, cams, cam, src, shape)


def press(v, ax):
    from matplotlib.backend_bases import MouseEvent
    c = v.fig.canvas
    x, y = ax.transAxes.transform((0.5, 0.5))
    for name in ("button_press_event", "button_release_event"):
        c.callbacks.process(name, MouseEvent(name, c, x, y, button=1))


STREAMS = {"viewers": dict(fn=k_viewers, quick=560, thorough=9000), "arrays": dict(fn=array_viewers, quick=240, thorough=3600),
           "representations": dict(fn=representations, quick=40, thorough=400), "video": dict(fn=video_viewer, quick=40, thorough=600)}
