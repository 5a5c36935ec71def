"""C14: wavevector maps and selections against pixel by pixel definitions"""
import math
import numpy as np
from vh import ref, gen
from cddm import map as cmap
from cddm.fft import rfft2_crop, fft2_crop

PROP = "C14"
RULE = ("wavevector grids, length and angle maps, sector maps, half/full plane conversion and k_select over all small image shapes (odd, even, non square, cropped), angles, sectors, steps, masks, NaN pixels and leading axes, against "
        "a definition evaluated pixel by pixel, plane waves as ground truth for direction, and tilings of the plane; distinct by (function, shape, crop, angle, sector, step, mask kind)")
ASSUMPTIONS = ["sectors are at most 180 degrees wide and centred at -180..180 degrees, as accepted", "pixels closer than 1e-9 to a boundary may fall on either side unless the boundary is a multiple of 45 degrees on a square grid",
               "zero wavevector belongs to every sector (k index 0)"]
FLOORS = {"quick": {"grid": 600, "wave": 300, "sector": 500, "tiling": 300, "annuli": 300, "convert": 500, "select": 1500, "none": 20, "rejected": 100},
          "thorough": {"grid": 9000, "wave": 5000, "sector": 9000, "tiling": 5000, "annuli": 5000, "convert": 8000, "select": 25000, "none": 400, "rejected": 1500}}


def freq(n):
    return np.array([i if i < (n + 1) // 2 else i - n for i in range(n)])


def steps(shape):
    h, w = (1, 1) if shape is None else shape
    return (1.0, h / w) if h > w else (w / h, 1.0)


def full_map(h, w, shape):
    si, sj = steps(shape)
    ki, kj = np.meshgrid(freq(h) * si, freq(w) * sj, indexing="ij")
    return ki, kj


def any_shape(rng):
    if rng.random() < 0.04:
        return int(rng.integers(20, 70)), int(rng.integers(20, 70))
    return int(rng.integers(2, 20)), int(rng.integers(2, 20))


def grids(ctx, rng, i):
    h, w = any_shape(rng)
    ctx.info = dict(shape=(h, w))
    si, sj = steps((h, w))
    ki, kj = full_map(h, w, (h, w))
    hk, hj = np.meshgrid(freq(h) * si, np.arange(w // 2 + 1) * sj, indexing="ij")
    for fn, a, b in ((cmap.fft2_grid, ki, kj), (cmap.rfft2_grid, hk, hj)):
        g = fn(shape=(h, w))
        ctx.close(g[0], a, "grid", rtol=1e-14)
        ctx.close(g[1], b, "grid", rtol=1e-14)
    for fn, a, b in ((cmap.fft2_kangle, ki, kj), (cmap.rfft2_kangle, hk, hj)):
        k, ang = fn(shape=(h, w))
        ctx.close(k, np.hypot(a, b), "grid", rtol=1e-14)
        z = np.exp(1j * ang)
        n = np.hypot(a, b)
        nz = n > 0
        ctx.close((z * n)[nz], (b - 1j * a)[nz], "grid", rtol=1e-13)
        ctx.check(bool((np.abs(ang) <= np.pi).all()), "grid", "angle range")
    # given sizes: cropped data, equal steps or those of the original shape
    ci, cj = int(rng.integers(1, h + 1)), int(rng.integers(1, w // 2 + 2))
    shp = (h, w) if rng.random() < 0.5 else None
    s = steps(shp)
    g = cmap.rfft2_grid(ci, cj, shp)
    ctx.close(g[0], np.broadcast_to((freq(ci) * s[0])[:, None], (ci, cj)), "grid", rtol=1e-14)
    ctx.close(g[1], np.broadcast_to(np.arange(cj) * s[1], (ci, cj)), "grid", rtol=1e-14)
    # ground truth: a plane wave of known direction
    for _ in range(2):
        a, b = int(rng.integers(-((h - 1) // 2), (h - 1) // 2 + 1)), int(rng.integers(0, (w - 1) // 2 + 1))
        if a == 0 and b == 0:
            continue
        y, x = np.meshgrid(np.arange(h), np.arange(w), indexing="ij")
        v = np.fft.rfft2(np.cos(2 * np.pi * (a * y / h + b * x / w) + 1))
        if rng.random() < 0.5:
            v = rfft2_crop(v, h // 2 - (0 if h % 2 else 1), None) if h > 2 else v
        k, ang = cmap.rfft2_kangle(v.shape[0], v.shape[1], (h, w))
        peaks = np.argwhere(np.abs(v) > 0.4 * np.abs(v).max())
        p = [tuple(q) for q in peaks]
        # period of the wave in pixels along y and x, in units of the larger side
        L = max(h, w)
        want = math.hypot(a * L / h, b * L / w)
        for q in p:
            ctx.check(abs(k[q] - want) < 1e-9 * want, "wave", lambda: "wave %r length %r, map says %r" % ((a, b), want, k[q]))
        th = math.atan2(-a * L / h, b * L / w)
        ctx.check(any(min(abs(ang[q] - th), abs(abs(ang[q] - th) - 2 * np.pi)) < 1e-9 or (b == 0 and abs(abs(ang[q] - th) - np.pi) < 1e-9) for q in p), "wave", lambda: "direction of %r: %r, map %r" % ((a, b), th, [ang[q] for q in p]))
    ctx.mark("grid", h, w, ci, cj, shp is None)


def in_sector(ki, kj, angle, sector, square):
    """1 in, 0 out, -1 on a boundary that is only defined up to rounding"""
    th = math.degrees(math.atan2(-ki, kj))
    if th == -180:
        th = 180.0
    # distance from the lower edge, counterclockwise
    d = (th - (angle - sector / 2)) % 360.0
    if min(d, 360 - d) < 1e-9:
        return 1 if square and abs(th / 45 - round(th / 45)) < 1e-12 else -1
    if abs(d - sector) < 1e-9:
        return 0 if square and abs(th / 45 - round(th / 45)) < 1e-12 else -1
    return 1 if d < sector else 0


def k_bin(k, kstep):
    """bins (i - 1/2) kstep < k <= (i + 1/2) kstep; two candidates at an edge"""
    q = k / kstep - 0.5
    r = round(q)
    if abs(q - r) < 1e-9:
        return (r, r + 1)
    return (int(math.ceil(q)),)


ANGLES = [0, 30, 45, 60, 90, 120, 135, 180, -180, -45, -90, -135, 15, -15, 165, 175, -170]
SECTORS = [5, 10, 30, 45, 60, 90, 120, 180, 1, 15]
STEPS = [1., 1., 0.5, 2., 1.5, 0.4, 1.2, 2 / 3, 3, 0.1, 2.8]


def params(rng):
    angle = float(rng.choice(ANGLES)) if rng.random() < 0.7 else float(rng.uniform(-180, 180))
    sector = float(rng.choice(SECTORS)) if rng.random() < 0.7 else float(rng.uniform(0.5, 180))
    kstep = float(rng.choice(STEPS)) if rng.random() < 0.8 else float(rng.uniform(0.2, 4))
    return angle, sector, kstep


def verify_map(ctx, m, ki, kj, angle, sector, kstep, square):
    m = np.asarray(m)
    ctx.shape(m.shape, ki.shape, "sector")
    ctx.check(m[0, 0] == 0, "sector", "zero wavevector")
    for p in np.ndindex(*m.shape):
        if p == (0, 0):
            continue
        s = in_sector(ki[p], kj[p], angle, sector, square)
        v = int(m[p])
        if s == 0:
            ctx.check(v == -1, "sector", lambda: "pixel %r (ki=%r kj=%r) outside but has index %d; angle %r sector %r" % (p, ki[p], kj[p], v, angle, sector))
        elif s == 1 or v != -1:
            bins = k_bin(math.hypot(ki[p], kj[p]), kstep)
            ctx.check(v in bins, "sector", lambda: "pixel %r (ki=%r kj=%r) has index %d, expected %r; angle %r sector %r step %r" % (p, ki[p], kj[p], v, bins, angle, sector, kstep))


def sectors(ctx, rng, i):
    h, w = any_shape(rng)
    angle, sector, kstep = params(rng)
    square = h == w
    ctx.info = dict(shape=(h, w), angle=angle, sector=sector, kstep=kstep)
    ki, kj = full_map(h, w, (h, w))
    k, a = cmap.fft2_kangle(h, w, (h, w))
    verify_map(ctx, cmap.fft2_sector_indexmap(k, a, angle, sector, kstep), ki, kj, angle, sector, kstep, square)
    verify_map(ctx, cmap.fft2_k_indexmap(h, w, angle, sector, kstep, shape=(h, w), mode="fft2"), ki, kj, angle, sector, kstep, square)
    # half plane data: rfft2 sizes
    m = cmap.fft2_k_indexmap(h, w // 2 + 1, angle, sector, kstep, shape=(h, w))
    verify_map(ctx, m, ki, kj, angle, sector, kstep, square)
    c, d = int(rng.integers(1, h + 1)), int(rng.integers(1, (w + 1) // 2 + 1))
    m = cmap.fft2_k_indexmap(c, d, angle, sector, kstep, shape=(h, w))
    if 2 * d - 1 <= w:
        qi, qj = np.meshgrid(freq(c) * steps((h, w))[0], freq(2 * d - 1) * steps((h, w))[1], indexing="ij")
        verify_map(ctx, m, qi, qj, angle, sector, kstep, square)
    # tilings of the plane by adjacent sectors: every pixel exactly once
    n = int(rng.choice([2, 3, 4, 5, 6, 8, 12, 24, 36]))
    off = float(rng.choice([0, 0, 360 / n / 2, 7.5, 22.5, 30]))
    total = np.zeros((h, w), int)
    for q in range(n):
        c = (off + q * 360 / n + 180) % 360 - 180
        mm = cmap.fft2_sector_indexmap(k, a, c, 360 / n, kstep)
        total += mm >= 0
    total[0, 0] = 1
    amb = np.array([[any(in_sector(ki[p, q], kj[p, q], (off + t * 360 / n + 180) % 360 - 180, 360 / n, square) == -1 for t in range(n)) for q in range(w)] for p in range(h)])
    amb[0, 0] = False
    bad = (total != 1) & ~amb
    ctx.check(not bad.any(), "tiling", lambda: "%d sectors, offset %r: pixels %r counted %r times" % (n, off, np.argwhere(bad)[:3].tolist(), total[bad][:3].tolist()))
    # tiling by annuli
    two = [cmap.fft2_sector_indexmap(k, a, x, 180, kstep) for x in (0, 180)]
    both = np.where(two[0] >= 0, two[0], two[1])
    ctx.check(bool((both >= 0).all()), "annuli", lambda: "no annulus for k=%r with step %r" % (k[both < 0][:3].tolist(), kstep))
    order = np.argsort(k, axis=None)
    ctx.check(bool((np.diff(both.ravel()[order]) >= 0).all()), "annuli", "index does not grow with k")
    ctx.mark("sector", h, w, round(angle, 1), round(sector, 1), round(kstep, 2), n)


def half_plane(ctx, rng, i):
    """deprecated half plane maps: angles are directions (modulo 180 degrees)"""
    h, w = any_shape(rng)
    angle = float(rng.choice([0, 30, 45, 60, 90, -45, -90, -30, 80, -85])) if rng.random() < 0.7 else float(rng.uniform(-90, 90))
    sector = float(rng.choice([5, 10, 30, 45, 60, 90])) if rng.random() < 0.7 else float(rng.uniform(0.5, 150))
    kstep = float(rng.choice(STEPS))
    ctx.info = dict(shape=(h, w), angle=angle, sector=sector, kstep=kstep)
    m = np.asarray(cmap.k_indexmap(h, w // 2 + 1, angle, sector, kstep, shape=(h, w)))
    si, sj = steps((h, w))
    ki, kj = np.meshgrid(freq(h) * si, np.arange(w // 2 + 1) * sj, indexing="ij")
    ctx.shape(m.shape, ki.shape, "sector")
    ctx.check(m[0, 0] == 0, "sector")
    for p in np.ndindex(*m.shape):
        if p == (0, 0):
            continue
        if p[1] == 0 and p[0] > h // 2:
            ctx.check(m[p] == -1, "sector", "redundant pixel selected")
            continue
        th = math.degrees(math.atan2(-ki[p], kj[p]))
        d = (th - (angle - sector / 2)) % 180.0
        if min(d, 180 - d, abs(d - sector)) < 1e-9:
            continue
        bins = k_bin(math.hypot(ki[p], kj[p]), kstep)
        ctx.check(m[p] in bins if d < sector else m[p] == -1, "sector", lambda: "half plane pixel %r angle %r: %d" % (p, th, m[p]))
    ctx.mark("half", h, w, round(angle, 1), round(sector, 1), round(kstep, 2))


def convert(ctx, rng, i):
    h, w = any_shape(rng)
    lead = tuple(int(x) for x in rng.integers(1, 3, int(rng.integers(0, 3))))
    v = rng.normal(size=lead + (h, w))
    F, R = np.fft.fft2(v), np.fft.rfft2(v)
    ctx.info = dict(shape=(h, w), lead=lead)
    s = float(np.abs(F).max())
    ctx.close(cmap.as_rfft2_data(F), R, "convert", rtol=1e-12, scale=s)
    ctx.close(cmap.from_rfft2_data(gen.layout(rng, R), shape=(h, w)), F, "convert", rtol=1e-12, scale=s)
    c = cmap.as_rfft2_conj(F)
    ctx.shape(c.shape, R.shape, "convert")
    ctx.check(bool(np.isnan(c[..., 0]).all()), "convert", "first column")
    ctx.close(c[..., 1:], np.conj(R[..., 1:]), "convert", rtol=1e-12, scale=s)
    ctx.check(cmap.as_fft2_shape(h, w // 2 + 1, (h, w)) == (h, w) and cmap.as_fft2_shape(shape=(h, w)) == (h, w), "convert", "shape")
    ctx.check(cmap.as_fft2_shape(h, w // 2 + 1) == (h, 2 * (w // 2) + 1), "convert", "shape")
    # magnitude-like (real) data
    A = np.abs(F)
    ctx.close(cmap.from_rfft2_data(cmap.as_rfft2_data(A), shape=(h, w)), A, "convert", rtol=1e-12, scale=s)
    # cropped
    if h > 2 and w > 2:
        ci, cj = int(rng.integers(0, (h - 1) // 2 + 1)), int(rng.integers(0, (w - 1) // 2 + 1))
        rc, fc = rfft2_crop(R, ci, cj), fft2_crop(F, ci, cj)
        ctx.close(cmap.as_rfft2_data(fc), rc, "convert", rtol=1e-12, scale=s)
        ctx.close(cmap.from_rfft2_data(rc), fc, "convert", rtol=1e-12, scale=s)
        ctx.close(cmap.from_rfft2_data(rc, shape=(h, w)) if 2 * (cj + 1) - 1 != w + 1 else fc, fc, "convert", rtol=1e-12, scale=s)
    # other axes
    G = np.moveaxis(F, (-2, -1), (0, 1)) if F.ndim > 2 else F
    if F.ndim > 2:
        ctx.close(np.moveaxis(cmap.as_rfft2_data(G, axes=(0, 1)), (0, 1), (-2, -1)), R, "convert", rtol=1e-12, scale=s)
        ctx.close(np.moveaxis(cmap.from_rfft2_data(np.moveaxis(R, (-2, -1), (0, 1)), shape=(h, w), axes=(0, 1)), (0, 1), (-2, -1)), F, "convert", rtol=1e-12, scale=s)
    # the order in which the axes are named does not matter
    for ax in ((-1, -2), (F.ndim - 1, F.ndim - 2), (F.ndim - 2, F.ndim - 1)):
        ctx.close(cmap.as_rfft2_data(F, axes=ax), R, "convert", rtol=1e-12, scale=s)
        ctx.close(cmap.as_rfft2_conj(F, axes=ax)[..., 1:], np.conj(R[..., 1:]), "convert", rtol=1e-12, scale=s)
        ctx.close(cmap.from_rfft2_data(R, shape=(h, w), axes=ax), F, "convert", rtol=1e-12, scale=s)
    # kernel of a single point: its plane wave times the window
    p, q = int(rng.integers(0, h)), int(rng.integers(0, w))
    win = rng.uniform(0.1, 2, (h, w))
    y, x = np.mgrid[:h, :w]
    ctx.close(cmap.k_point_kernel(win, p, q), np.exp(-2j * np.pi * (p * y / h + q * x / w)) * win, "convert", rtol=1e-12, scale=10.0)
    # masks: a half plane pixel is set if it, or the pixel of the opposite wavevector, is
    m = rng.random((h, w)) < 0.3
    want = np.zeros((h, w // 2 + 1), bool)
    for p, q in np.argwhere(m):
        if q <= w // 2:
            want[p, q] = True
        p2, q2 = -p % h, -q % w
        if q2 <= w // 2 and q2 > 0:
            want[p2, q2] = True
    ctx.equal(cmap.as_rfft2_mask(m), want, "convert")
    ctx.raises(ValueError, lambda: cmap.as_fft2_shape(h + 1, 1, (h, w)), "rejected", "height")
    ctx.raises(ValueError, lambda: cmap.as_fft2_shape(h, w + 2, (h, w)), "rejected", "width")
    ctx.raises(ValueError, lambda: cmap.as_fft2_shape(None, 3), "rejected", "no shape")
    ctx.mark("convert", h, w, len(lead))


def ref_select(data, m, kmap, half, mask):
    """-> {index: (k, average)} pixel by pixel. data (..., i, j, n)"""
    h, w = m.shape
    out = {}
    for idx in range(int(m.max()) + 1):
        ks, vals = [], []
        for p, q in np.ndindex(*data.shape[-3:-1]):
            p2, q2 = -p % h, -q % w
            direct = m[p, q] == idx
            opposite = half and q > 0 and m[p2, q2] == idx
            if not (direct or opposite) or (mask is not None and not mask[p, q]):
                continue
            ks.append(kmap[p, q])
            v = data[..., p, q, :]
            vals.append(np.conj(v) if opposite else v)
        if ks:
            v = np.stack(vals)
            n = (~np.isnan(v)).sum(0)
            with np.errstate(all="ignore"):
                out[idx] = (sum(ks) / len(ks), np.where(np.isnan(v), 0, v).sum(0) / np.where(n, n, np.nan))
    return out


def select(ctx, rng, i):
    h, w = int(rng.integers(2, 13)), int(rng.integers(2, 13))
    half = bool(rng.random() < 0.6)
    crop = bool(rng.random() < 0.4) and h > 2 and w > 2
    cplx = bool(rng.random() < 0.4)
    angle, sector, kstep = params(rng)
    shape = (h, w)
    if crop:
        fh, fw = 2 * int(rng.integers(0, (h - 1) // 2 + 1)) + 1, 2 * int(rng.integers(0, (w - 1) // 2 + 1)) + 1
    else:
        fh, fw = h, w
    dw = fw // 2 + 1 if half else fw
    giveshape = True
    if h == w and (not half or fw % 2) and rng.random() < 0.5:
        giveshape = False
    lead = tuple(int(x) for x in rng.integers(1, 3, int(rng.integers(0, 3))))
    n = int(rng.integers(1, 5))
    d = rng.normal(size=lead + (fh, dw, n))
    if cplx:
        d = d + 1j * rng.normal(size=d.shape)
        if half and fw % 2 == 0:
            d[..., -1, :] = d[..., -1, :].real       # that column stands for both directions
    if rng.random() < 0.4:
        d[..., rng.random((fh, dw)) < 0.3, :] = np.nan
    mask = None
    kind = str(rng.choice(["none", "none", "mask", "masked"]))
    if kind != "none":
        mask = rng.random((fh, dw)) < 0.6
        mask.flat[int(rng.integers(mask.size))] = True
    k, a = cmap.fft2_kangle(fh, fw, shape)
    m = np.asarray(cmap.fft2_sector_indexmap(k, a, angle, sector, kstep))
    ctx.info = dict(shape=shape, full=(fh, fw), half=half, complex=cplx, angle=angle, sector=sector, kstep=kstep, mask=None if mask is None else mask.tolist(), kind=kind)
    want = ref_select(d, m, k, half, mask)
    data = d
    if kind == "masked":
        data = d[..., mask, :]
        if data.shape[-3:-1] == mask.shape:
            return
    kw = dict(sector=sector, kstep=kstep, mask=mask)
    if giveshape:
        kw["shape"] = shape
    if not half:
        kw["mode"] = "fft2"
    scale = float(np.nanmax(np.abs(d))) if np.isfinite(d).any() else 1.0

    def cmp(got, w):
        if w is None:
            ctx.check(got is None, "none")
            return
        ctx.check(got is not None, "select", "nothing for a populated index")
        ctx.check(abs(got[0] - w[0]) <= 1e-12 * max(1, abs(w[0])), "select", lambda: "k %r, expected %r" % (got[0], w[0]))
        ctx.close(got[1], w[1], "select", rtol=1e-12, scale=scale)

    before = data.copy()
    res = cmap.k_select(gen.layout(rng, data), angle, **kw)
    ctx.check(len(res) == len(want), "select", lambda: "%d results, expected %d" % (len(res), len(want)))
    for g, idx in zip(res, sorted(want)):
        cmp(g, want[idx])
    ctx.equal(data, before, "select")
    some = [int(x) for x in rng.integers(0, int(m.max()) + 3, int(rng.integers(1, 5)))]
    res = cmap.k_select(data, angle, k=some, **kw)
    exp = [want[x] for x in some if x in want]
    ctx.check(len(res) == len(exp), "select", lambda: "k=%r: %d results" % (some, len(res)))
    for g, e in zip(res, exp):
        cmp(g, e)
    one = int(rng.integers(0, int(m.max()) + 3))
    cmp(cmap.k_select(data, angle, k=one if rng.random() < 0.5 else one + float(rng.uniform(-0.4, 0.4)), **kw), want.get(one))
    # full and half plane describe the same pixels (no edge column that stands for both directions)
    if half and fw % 2 and fh % 2 and mask is None:
        F = np.moveaxis(cmap.from_rfft2_data(np.moveaxis(d, -1, 0)), 0, -1)
        for p in range(1, fh):
            # the first column holds both directions: independent values in arbitrary data
            F[..., p, 0, :] = d[..., p, 0, :]
        full = cmap.k_select(F, angle, **dict(kw, mode="fft2", mask=None))
        res = cmap.k_select(d, angle, **dict(kw, mask=None))
        ctx.check(len(full) == len(res), "select")
        for x, y in zip(full, res):
            # opposite pixels enter conjugated: same average
            ctx.check(abs(x[0] - y[0]) < 1e-9, "select")
            ctx.close(x[1], y[1], "select", rtol=1e-11, scale=scale)
    bad = float(rng.choice([-181, 181, 200, -360]))
    ctx.raises(Exception, lambda: cmap.k_select(d, bad, sector=30, shape=shape, mode="fft2"), "rejected", "angle")
    for s in (0, -5, 181):
        ctx.raises(Exception, lambda: cmap.k_select(d, 0, sector=s, shape=shape, mode="fft2"), "rejected", "sector")
    ctx.mark("select", h, w, half, crop, cplx, kind, round(angle), round(sector), len(lead))


STREAMS = {"grids": dict(fn=grids, quick=200, thorough=3000), "sectors": dict(fn=sectors, quick=320, thorough=6000), "half": dict(fn=half_plane, quick=120, thorough=2000),
           "convert": dict(fn=convert, quick=160, thorough=3000), "select": dict(fn=select, quick=500, thorough=10000)}
