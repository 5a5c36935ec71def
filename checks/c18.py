"""C18: simulated particle videos obey their physical model"""
import numpy as np
from vh import ref
from cddm import sim

PROP = "C18"
RULE = ("random boxes (non-square, down to 1 pixel), particle counts, drifts (scalar, vector, per particle, callable), diffusion (scalar or callable per particle), time steps, starting positions inside and outside the box; "
        "frames with random point-spread widths (narrow to wider than the frame), intensities, backgrounds and camera-1 rotations and offsets compared with a pixel-by-pixel model; converters compared with their formula and moments; distinct by parameters")
ASSUMPTIONS = ["pixel sums that exceed the image dtype are not examined", "statistical comparisons use 5.5 standard errors", "numba target cpu (seeding is documented as ineffective otherwise)"]
FLOORS = {"quick": {"drift": 3000, "in-box": 10000, "start": 500, "moments": 300, "pixels": 600, "adc-formula": 500, "adc-moments": 200, "reproducible": 200, "form-factor": 60, "rejected": 150, "transform": 400},
          "thorough": {"drift": 40000, "in-box": 120000, "start": 6000, "moments": 3000, "pixels": 7000, "adc-formula": 6000, "adc-moments": 2500, "reproducible": 2500, "form-factor": 700, "rejected": 1800, "transform": 5000}}
Z = 5.5


def wrapdiff(d, shape):
    s = np.asarray(shape, float)
    return d - s * np.round(d / s)


def box(rng, small=1):
    return tuple(int(v) for v in rng.integers(small, 40, 2)) if rng.random() < 0.7 else tuple(int(v) for v in rng.choice([1, 2, 7, 64, 200], 2))


def walk(ctx, rng, i):
    """no diffusion: trajectories follow the drift exactly, in the periodic box, from the wrapped start"""
    shape = box(rng)
    s = np.array(shape, float)
    N = int(rng.integers(1, 9)) if rng.random() < 0.96 else int(rng.integers(9, 600))
    count = int(rng.integers(1, 25)) if rng.random() < 0.96 else int(rng.integers(25, 400))
    dt = float(rng.choice([1, 1, 0.5, 2, 0.1, 3.7]))
    x0 = rng.random((N, 2)) * s
    if rng.random() < 0.4:
        x0 = x0 + rng.integers(-3, 4, (N, 2)) * s * rng.choice([1, 0.9])
    if rng.random() < 0.2:
        x0 = np.round(x0)
    src = x0.tolist() if rng.random() < 0.3 else x0.copy()
    kind = str(rng.choice(["vector", "particle", "callable", "scalar", "zero"]))
    entry = "particles" if kind == "scalar" or rng.random() < 0.5 else "walk"
    if kind == "vector":
        vel = tuple(float(v) for v in rng.normal(size=2) * rng.choice([0.3, 3, 50]))
        drift = lambda x: np.broadcast_to(vel, x.shape)
    elif kind == "particle":
        vel = rng.normal(size=(N, 2)) * 3
        keep = vel.copy()
        drift = lambda x: keep
    elif kind == "callable":
        amp = rng.normal(size=2)
        vel = lambda x: np.stack([amp[0] * np.sin(x[:, 1]), amp[1] * np.cos(x[:, 0])], axis=1)
        drift = vel
    elif kind == "scalar":
        vel = float(rng.normal() * 2)
        drift = lambda x: np.full(x.shape, vel)
    else:
        vel = (0.0, 0.0)
        drift = lambda x: np.zeros(x.shape)
    delta = 0 if rng.random() < 0.7 else (lambda x: np.zeros(len(x)))
    ctx.info = dict(shape=shape, particles=N, count=count, dt=dt, velocity=kind, entry=entry)
    if entry == "walk":
        it = sim.brownian_walk(src, count=count, shape=shape, delta=delta, dt=dt, velocity=vel)
    else:
        it = sim.brownian_particles(count=count, shape=shape, num_particles=N, delta=delta, dt=dt, velocity=vel, x0=src)
    first = []
    xs = []
    for x in it:
        first.append(x)
        xs.append(np.array(x))
    ctx.check(len(xs) == count, "start", lambda: "%d coordinate sets instead of %d" % (len(xs), count))
    for a, b in zip(first, xs):
        ctx.check(np.array_equal(a, b), "start", "coordinates changed after they were delivered")
    ctx.shape(xs[0].shape, (N, 2), "start")
    ctx.check(np.all(np.abs(wrapdiff(xs[0] - x0, shape)) < 1e-9), "start", lambda: "walk starts at %r, initial positions are %r" % (xs[0].tolist(), x0.tolist()))
    inside = np.all((x0 >= 0) & (x0 < s), axis=1)
    ctx.equal(xs[0][inside], x0[inside], "start")
    for x in xs:
        ctx.check(np.all((x >= 0) & (x < s)), "in-box", lambda: "position %r outside of box %r" % (x.tolist(), shape))
    for a, b in zip(xs[:-1], xs[1:]):
        step = wrapdiff(b - a - drift(a) * dt, shape)
        ctx.check(np.all(np.abs(step) < 1e-8 * (1 + np.abs(drift(a)).max() * dt)), "drift", lambda: "step %r deviates from velocity * dt by %r" % ((b - a).tolist(), step.tolist()))
    if not isinstance(src, list):
        ctx.equal(src, x0, "start")
    ctx.mark("walk", shape, N, kind, entry, dt, count)


def diffusion(ctx, rng, i):
    """steps are drift * dt plus normal with standard deviation delta*sqrt(dt), independent"""
    shape = tuple(int(v) for v in rng.integers(200, 900, 2))
    N = int(rng.choice([1, 40, 400]))
    count = max(4, 4000 // N)
    dt = float(rng.choice([1, 0.25, 4, 0.01, 2.5]))
    per = bool(rng.random() < 0.4)
    delta = float(rng.choice([0.5, 1, 3]))
    d = (np.where(np.arange(N) % 2, delta, 2 * delta)) if per else np.full(N, delta)
    vel = rng.normal(size=2) * rng.choice([0, 1, 5])
    entry = str(rng.choice(["walk", "particles", "random-start"]))
    ctx.info = dict(shape=shape, particles=N, dt=dt, delta=delta, per_particle=per, entry=entry)
    arg = (lambda x: d) if per else delta
    sim.seed(int(rng.integers(2 ** 31)))
    x0 = rng.random((N, 2)) * np.array(shape)
    if entry == "walk":
        it = sim.brownian_walk(x0, count=count, shape=shape, delta=arg, dt=dt, velocity=vel)
    elif entry == "particles":
        it = sim.brownian_particles(count=count, shape=shape, num_particles=N, delta=arg, dt=dt, velocity=vel, x0=x0)
    else:
        it = sim.brownian_particles(count=count, shape=shape, num_particles=N, delta=arg, dt=dt, velocity=vel)
    x = np.array(list(it))
    ctx.shape(x.shape, (count, N, 2), "moments")
    ctx.check(np.all((x >= 0) & (x < np.array(shape))), "in-box", "outside of the box")
    ctx.count("in-box", count)
    if entry == "random-start":
        if N > 30:
            u = x[0] / np.array(shape)
            se = Z * np.sqrt(1 / 12. / N)
            ctx.check(np.all(np.abs(u.mean(axis=0) - 0.5) < se), "moments", lambda: "mean of random starting positions %r of the box" % u.mean(axis=0).tolist())
            ctx.check(abs(np.corrcoef(u.T)[0, 1]) < Z / np.sqrt(N), "moments", "coordinates of starting positions are correlated")
            ctx.check(np.all(u.max(axis=0) > 0.8) and np.all(u.min(axis=0) < 0.2), "moments", "starting positions do not fill the box")
    else:
        ctx.equal(x[0], x0, "start")
    z = wrapdiff(np.diff(x, axis=0) - vel * dt, shape) / (d[None, :, None] * np.sqrt(dt))
    n = z.size // 2
    for c in range(2):
        zc = z[..., c].ravel()
        ctx.check(abs(zc.mean()) < Z / np.sqrt(n), "moments", lambda: "mean step deviates from drift: %g standard errors" % (zc.mean() * np.sqrt(n)))
        ctx.check(abs(zc.var() - 1) < Z * np.sqrt(2. / n), "moments", lambda: "step variance is %g of the stated one (n=%d)" % (zc.var(), n))
        ctx.check(abs(np.mean(zc ** 4) - 3) < Z * np.sqrt(96. / n), "moments", lambda: "fourth moment of steps %g" % np.mean(zc ** 4))
    a, b = z[..., 0].ravel(), z[..., 1].ravel()
    ctx.check(abs(np.mean(a * b)) < Z / np.sqrt(n), "moments", "the two coordinates' steps are correlated")
    ctx.check(abs(np.mean(z[1:] * z[:-1])) < Z / np.sqrt(z[1:].size), "moments", "successive steps are correlated")
    if N > 1:
        ctx.check(abs(np.mean(z[:, 1:] * z[:, :-1])) < Z / np.sqrt(z[:, 1:].size), "moments", "steps of different particles are correlated")
        if per:
            for k in (0, 1):
                zz = z[:, k::2]
                ctx.check(abs(zz.var() - 1) < Z * np.sqrt(2. / zz.size), "moments", lambda: "step variance of particles with delta %g is %g of the stated one" % (d[k], zz.var()))
    ctx.mark("diffusion", shape, N, dt, delta, per, entry)


def psf_bounds(shape, pos, inten, sigma, background):
    """smallest and largest pixel values the model allows for rounding of the exponential"""
    h, w = shape
    lo = np.zeros(shape) + background
    hi = lo.copy()
    size = int(round(3 * float(np.max(sigma)))) if len(sigma) else 0
    for (y, x), I, s in zip(pos, inten, sigma):
        ii = np.arange(int(y) - size, int(y) + size + 1)
        jj = np.arange(int(x) - size, int(x) + size + 1)
        v = I * np.exp(-0.5 * ((ii[:, None] - y + 0.5) ** 2 + (jj[None] - x + 0.5) ** 2) / s ** 2)
        I_, J_ = np.broadcast_arrays((ii % h)[:, None], (jj % w)[None])
        np.add.at(lo, (I_, J_), np.floor(v - 1e-6 * (1 + v)).clip(0))
        np.add.at(hi, (I_, J_), np.floor(v + 1e-6 * (1 + v)))
    return lo, hi


def transform_ref(x, shape, offset, rotation):
    c = np.array(shape) / 2.
    a = rotation or 0.
    R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    y = (x - c) @ R.T + c + (0 if offset is None else np.asarray(offset))
    return y % np.array(shape, float)


def render(ctx, rng, i):
    """every pixel of every frame is the background plus each particle's wrapped point-spread function"""
    shape = tuple(int(v) for v in rng.integers(1, 30, 2))
    s = np.array(shape, float)
    N = int(rng.choice([0, 1, 1, 2, 5, 12]))
    large = rng.random() < 0.04
    if large:
        shape = tuple(int(v) for v in rng.integers(40, 200, 2))
        s = np.array(shape, float)
        N = int(rng.integers(12, 150))
    nf = int(rng.integers(1, 4)) if not large or rng.random() < 0.5 else int(rng.integers(4, 12))
    points = bool(rng.random() < 0.3)
    N = N if points else max(N, 1)
    dtype = str(rng.choice(["uint8", "uint16"]))
    inten = int(rng.integers(0, 60)) if dtype == "uint8" else int(rng.integers(0, 4000))
    sigma = float(rng.choice([0.3, 0.8, 1.0, 1.4, 2.0, 3.0, 5.1, 9.0]) * rng.uniform(0.95, 1.05))
    while abs((3 * sigma) % 1 - 0.5) < 0.02:
        sigma *= 1.03
    persig = (not points) and N > 0 and rng.random() < 0.3
    sig = sigma * rng.uniform(0.5, 1, N) if persig else np.full(N, sigma)
    if persig:
        sig[int(rng.integers(N))] = sigma      # the widest one may be any of them
    pos = [rng.random((N, 2)) * s for _ in range(nf)]
    for p in pos:
        for k in range(N):
            r = rng.random()
            if r < 0.15:
                p[k] = np.floor(p[k])
            elif r < 0.35:
                p[k, int(rng.integers(2))] = float(rng.choice([0.0, 0.01])) if rng.random() < 0.5 else 0.0
            elif r < 0.45:
                p[k] = s - 0.01
    background = int(rng.integers(0, 20)) if rng.random() < 0.5 else rng.integers(0, 20, shape).astype(dtype)
    dual = bool(rng.random() < 0.5)
    offset = tuple(float(v) for v in rng.normal(size=2) * 5) if rng.random() < 0.5 else None
    rotation = float(rng.uniform(-4, 4)) if rng.random() < 0.4 else None
    t = np.arange(nf)
    ctx.info = dict(shape=shape, particles=N, points=points, dtype=dtype, intensity=inten, sigma=sigma, dual=dual, offset=offset, rotation=rotation)
    keep = [p.copy() for p in pos]
    bg = background.copy() if not isinstance(background, int) else background
    kw = dict(t1=t, shape=shape, background=background, intensity=inten, sigma=None if points else (sig if persig else sigma), dtype=dtype, offset=offset, rotation=rotation)
    if dual:
        kw["t2"] = t
    frames = list(sim.particles_video(iter(pos) if rng.random() < 0.5 else pos, **kw))
    ctx.check(len(frames) == nf, "pixels", lambda: "%d frames instead of %d" % (len(frames), nf))
    for k in range(nf):
        ctx.equal(pos[k], keep[k], "input-kept")
        ctx.check(len(frames[k]) == (2 if dual else 1), "pixels", "wrong number of cameras")
        for c, im in enumerate(frames[k]):
            p = keep[k] if c else transform_ref(keep[k], shape, offset, rotation)
            if c == 0 and offset is None and rotation is None:
                p = keep[k]
            ctx.check(str(im.dtype) == dtype, "pixels", lambda: "dtype %s" % im.dtype)
            ctx.shape(im.shape, shape, "pixels")
            if points:
                f = p % 1
                if not (c or (offset is None and rotation is None)) and np.any((f < 1e-6) | (f > 1 - 1e-6)):
                    continue
                lo = np.zeros(shape) + bg
                np.add.at(lo, tuple(np.floor(p).astype(int).T), inten)
                hi = lo
            else:
                if not (c or (offset is None and rotation is None)) and np.any((p % 1 < 1e-6) | (p % 1 > 1 - 1e-6)):
                    continue        # window around int(position) is ambiguous
                lo, hi = psf_bounds(shape, p, [inten] * N, sig, bg)
            if hi.max() > np.iinfo(dtype).max:
                ctx.count("overflow")
                continue
            im = im.astype(float)
            bad = (im < lo) | (im > hi)
            ctx.check(not bad.any(), "pixels", lambda: "pixel %r is %r, expected %r..%r (%d wrong)" % (tuple(np.argwhere(bad)[0]), im[bad][0], lo[bad][0], hi[bad][0], bad.sum()))
    if not isinstance(background, int):
        ctx.equal(background, bg, "input-kept")
    ctx.mark("render", shape, N, points, dtype, inten, round(sigma, 3), dual, offset is None, rotation is None)


def simple(ctx, rng, i):
    """simple_brownian_video is particles_video of brownian_particles with the same seed"""
    shape = tuple(int(v) for v in rng.integers(4, 40, 2))
    n = int(rng.integers(1, 12))
    t1 = np.cumsum(rng.integers(1, 4, n)) - 1
    t2 = np.cumsum(rng.integers(1, 4, n)) - 1 if rng.random() < 0.5 else None
    if t2 is not None and rng.random() < 0.5:
        t1, t2 = t1.tolist(), t2.tolist()
    kw = dict(num_particles=int(rng.integers(1, 6)), delta=float(rng.uniform(0, 2)), dt=float(rng.choice([1, 0.5])), velocity=float(rng.normal()))
    vk = dict(background=int(rng.integers(0, 9)), intensity=int(rng.integers(1, 20)), sigma=float(rng.uniform(0.5, 2)), dtype=str(rng.choice(["uint8", "uint16"])))
    sd = int(rng.integers(2 ** 31))
    ctx.info = dict(shape=shape, t1=t1, t2=t2, **kw)
    sim.seed(sd)
    a = list(sim.simple_brownian_video(t1, t2, shape=shape, **vk, **kw))
    for _ in range(int(rng.integers(0, 3))):
        np.random.rand(3)
        list(sim.brownian_particles(count=2, num_particles=2))
    sim.seed(sd)
    b = list(sim.simple_brownian_video(t1, t2, shape=shape, **vk, **kw))
    sim.seed(sd)
    top = int(max(np.max(t1), np.max(t2) if t2 is not None else 0)) + 1
    pos = [np.array(p) for p in sim.brownian_particles(count=top, shape=shape, **kw)]
    ctx.check(len(a) == len(b) == n, "reproducible", lambda: "%d, %d frames of %d" % (len(a), len(b), n))
    for k in range(n):
        for x, y in zip(a[k], b[k]):
            ctx.equal(x, y, "reproducible")
        for c, t in enumerate([t1] if t2 is None else [t1, t2]):
            lo, hi = psf_bounds(shape, pos[int(t[k])], [vk["intensity"]] * len(pos[0]), np.full(len(pos[0]), vk["sigma"]), vk["background"])
            if abs((3 * vk["sigma"]) % 1 - 0.5) < 0.02 or hi.max() > np.iinfo(vk["dtype"]).max:
                continue
            im = a[k][c].astype(float)
            ctx.check(np.all((im >= lo) & (im <= hi)), "pixels", "frame %d of camera %d does not show the scene at its trigger time" % (k, c + 1))
    sim.seed(sd + 1)
    other = list(sim.brownian_particles(count=1, shape=shape, **kw))[0]
    ctx.check(not np.array_equal(other, pos[0]), "reproducible", "another seed gives the same particles")
    ctx.mark("simple", shape, n, t2 is None)


def transform(ctx, rng, i):
    shape = box(rng, 2)
    N = int(rng.integers(1, 9))
    x = rng.random((N, 2)) * np.array(shape)
    offset = tuple(float(v) for v in rng.normal(size=2) * 10) if rng.random() < 0.7 else None
    rotation = float(rng.uniform(-7, 7)) if rng.random() < 0.7 else None
    ctx.info = dict(shape=shape, offset=offset, rotation=rotation)
    keep = x.copy()
    y = sim.coordinate_transform(x, shape, offset=offset, rotation=rotation)
    ctx.equal(x, keep, "input-kept")
    d = wrapdiff(y - transform_ref(x, shape, offset, rotation), shape)
    ctx.check(np.all(np.abs(d) < 1e-8 * (1 + max(shape))), "transform", lambda: "camera-1 coordinates off by %r" % d.tolist())
    ctx.check(np.all((y >= 0) & (y < np.array(shape))), "transform", "outside of the frame")
    ctx.mark("transform", shape, N, offset is None, rotation is None)


def converter(ctx, rng, i):
    """adc without noise is its formula, clipped to the bit depth"""
    bits = int(rng.choice([8, 10, 12, 14, 16]))
    mx = 2 ** bits - 1
    shape = tuple(int(v) for v in rng.integers(1, 12, 2))
    sat = int(rng.choice([1, 100, 255, 4096, 32768, 100000]))
    black = int(rng.choice([0, 0, 5, 200]))
    kind = str(rng.choice(["u1", "u2", "f8", "negative"]))
    top = {"u1": 255, "u2": 65535}.get(kind, 1.3 * sat + black)
    f = rng.uniform(-top if kind == "negative" else 0, top, shape)
    if kind in ("u1", "u2"):
        f = np.floor(f).astype(kind)
    elif rng.random() < 0.3:
        f = np.floor(f)
    f.ravel()[int(rng.integers(f.size))] = min(top, sat + black)
    keep = f.copy()
    ctx.info = dict(bits=bits, saturation=sat, black=black, kind=kind, shape=shape)
    ro = float(rng.choice([0, 3]))
    out = sim.adc(f, saturation=sat, black_level=black, bit_depth="%dbit" % bits, noise_model="none", readout_noise=ro)
    ctx.equal(f, keep, "input-kept")
    ctx.check(out.dtype == (np.uint8 if bits == 8 else np.uint16), "adc-formula", lambda: "dtype %s for %d bits" % (out.dtype, bits))
    v = ((f.astype(float) - black) / sat * mx).clip(0, mx)
    lo, hi = np.floor(v - 1e-7 * (1 + v)).clip(0), np.floor(v + 1e-7 * (1 + v))
    ctx.check(np.all((out >= lo) & (out <= np.minimum(hi, mx))), "adc-formula", lambda: "adc gives %r for %r, expected %r" % (out.tolist(), f.tolist(), lo.tolist()))
    buf = np.zeros(shape, out.dtype)
    r = sim.adc(f, saturation=sat, black_level=black, bit_depth="%dbit" % bits, noise_model="none", readout_noise=ro, out=buf)
    ctx.check(r is buf, "adc-formula", "output array not returned")
    ctx.equal(buf, out, "adc-formula")
    # noise never leaves the range
    for nm in ("gaussian", "poisson"):
        n = sim.adc(np.abs(f), saturation=sat, black_level=black, bit_depth="%dbit" % bits, noise_model=nm, readout_noise=ro)
        ctx.check(int(n.max()) <= mx, "adc-formula", "%s: %d exceeds %d bits" % (nm, n.max(), bits))
    z = sim.adc(np.zeros(shape), saturation=sat, bit_depth="%dbit" % bits, noise_model=str(rng.choice(["gaussian", "poisson", "none"])))
    ctx.check(np.all(z == 0), "adc-formula", "no light and no readout noise gives %r" % z.max())
    ctx.mark("converter", bits, sat, black, kind, shape)


def noise(ctx, rng, i):
    """mean and variance of the noise models"""
    nm = str(rng.choice(["gaussian", "poisson"]))
    I = float(rng.choice([40, 200, 900])) if nm == "gaussian" else float(rng.choice([0.5, 3, 40, 200]))
    ro = float(rng.choice([0, 10, 60])) if I > 5 else float(rng.choice([0, 1.5]))
    black = int(rng.choice([0, 0, 4])) if I > 30 else 0
    bits = int(rng.choice([12, 14, 16]))
    mx = 2 ** bits - 1
    sat = int(8 * (I + ro) + 100)
    n = 60
    f = np.full((n, n), I)
    ctx.info = dict(model=nm, signal=I, readout=ro, bits=bits, saturation=sat, black=black)
    sd = int(rng.integers(2 ** 31))
    sim.seed(sd)
    a = sim.adc(f, saturation=sat, black_level=black, bit_depth="%dbit" % bits, readout_noise=ro, noise_model=nm)
    sim.seed(sd)
    b = sim.adc(f, saturation=sat, black_level=black, bit_depth="%dbit" % bits, readout_noise=ro, noise_model=nm)
    ctx.equal(a, b, "reproducible")
    k = mx / sat
    x = (a.astype(float) + 0.5) / k + black      # undo the scaling, half a step for truncation
    if nm == "poisson":
        x = np.round((a.astype(float) + 1e-6) / k + 0.49) if k > 3 else x
        x = x + (black if k > 3 else 0)
    V = I + ro
    N = x.size
    tol = 0.5 / k if not (nm == "poisson" and k > 3) else 0
    ctx.check(abs(x.mean() - V) < Z * np.sqrt(V / N) + tol, "adc-moments", lambda: "mean signal %g, expected %g" % (x.mean(), V))
    m4 = 3 * V * V + (V if nm == "poisson" else 0)
    ctx.check(abs(x.var() - V) < Z * np.sqrt((m4 - V * V) / N) + (0.1 / k ** 2 if tol else 0) + 0.3 * tol, "adc-moments", lambda: "signal variance %g, expected %g" % (x.var(), V))
    z = (x - x.mean()) / x.std()
    for u, v in ((z[1:], z[:-1]), (z[:, 1:], z[:, :-1])):
        ctx.check(abs(np.mean(u * v)) < Z / np.sqrt(u.size), "adc-moments", "noise of neighbouring pixels is correlated")
    ctx.mark("noise", nm, I, ro, bits, black)


def formfactor(ctx, rng, i):
    shape = tuple(int(v) for v in rng.integers(2, 16, 2))
    win = np.ones(shape) if rng.random() < 0.4 else rng.random(shape)
    navg = int(rng.integers(1, 4))
    dtype = str(rng.choice(["uint8", "uint16"]))
    inten = int(rng.integers(1, 200)) if dtype == "uint8" else int(rng.integers(1, 9000))
    sigma = float(rng.uniform(0.4, 2.5))
    while abs((3 * sigma) % 1 - 0.5) < 0.02:
        sigma *= 1.03
    mode = str(rng.choice(["rfft2", "fft2"]))
    ctx.info = dict(shape=shape, navg=navg, sigma=sigma, intensity=inten, mode=mode)
    got = sim.form_factor(win, sigma=sigma, intensity=inten, navg=navg, dtype=dtype, mode=mode)
    out, err = 0., 0.
    for a in range(navg):
        for b in range(navg):
            lo, hi = psf_bounds(shape, [(a * shape[0] / navg, b * shape[1] / navg)], [inten], np.array([sigma]), 0)
            if hi.max() > np.iinfo(dtype).max:
                ctx.count("overflow")
                return
            err = max(err, (hi - lo).sum())
            out = out + np.abs((np.fft.rfft2 if mode == "rfft2" else np.fft.fft2)(lo * win)) ** 2
    want = np.sqrt(out / navg ** 2)
    ctx.close(got, want, "form-factor", rtol=1e-9, atol=float(err))
    ctx.mark("form", shape, navg, mode, dtype)


def rejected(ctx, rng, i):
    p = [np.array([[1., 1.]])]
    bad = [
        lambda: list(sim.particles_video(p, t1=[0], shape=(4, 4), dtype=str(rng.choice(["float64", "int16", "uint32"])))),
        lambda: list(sim.particles_video(p, t1=[0], shape=(4, 4), dtype="uint8", intensity=int(rng.integers(256, 9000)))),
        lambda: list(sim.particles_video(p, t1=[0], shape=(4, 4), dtype=str(rng.choice(["uint8", "uint16"])), intensity=-int(rng.integers(1, 9)))),
        lambda: sim.adc(np.ones((2, 2)), noise_model=str(rng.choice(["", "Gaussian", "shot"]))),
        lambda: list(sim.brownian_particles(count=2, num_particles=3, x0=np.ones((int(rng.choice([1, 2, 4])), 2)))),
        lambda: list(sim.brownian_walk(np.ones(4), count=2)),
        lambda: list(sim.brownian_walk(np.ones((2, 2)), count=2, shape=(4, 4, 4))),
        lambda: list(sim.brownian_walk(np.ones((2, 2)), count=2, shape=(4,))),
        lambda: sim.coordinate_transform(np.ones((2, 2)), (4,)),
        lambda: sim.form_factor(np.ones((4, 4)), mode="fft", navg=1),
    ]
    for k, fn in enumerate(bad):
        ctx.raises(ValueError, fn, "rejected", "invalid input %d" % k)


STREAMS = {
    "walk": dict(fn=walk, quick=600, thorough=7000),
    "diffusion": dict(fn=diffusion, quick=100, thorough=1200),
    "render": dict(fn=render, quick=400, thorough=5000),
    "simple": dict(fn=simple, quick=100, thorough=1200),
    "transform": dict(fn=transform, quick=250, thorough=3000),
    "converter": dict(fn=converter, quick=200, thorough=2500),
    "noise": dict(fn=noise, quick=70, thorough=800),
    "formfactor": dict(fn=formfactor, quick=80, thorough=900),
    "rejected": dict(fn=rejected, quick=20, thorough=220),
}
