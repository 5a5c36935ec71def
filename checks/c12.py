"""C12: log averaging and merging stand for the original values at the stated delays"""
import numpy as np
from vh import ref, gen, multi
from cddm import multitau, norm as nm
from cddm.multitau import BINNING_MEAN, BINNING_FIRST

PROP = "C12"
RULE = ("log_average, multilevel, merge_multilevel, log_merge, the count versions, t_multilevel, and fold/shift/equalize of complex data against an explicit per-delay reference "
        "(weights of every original delay); arrays with 0-3 leading axes, lengths around every level boundary, sizes 1-17, NaN gaps, complex data with and without folding; distinct by (function, length, size, binning, dims, kind)")
ASSUMPTIONS = ["floating point data (as returned by normalization)", "delays are strictly increasing among the delays that carry data", "level sizes are even where levels are merged",
               "averaging uses the documented 1/4,1/2,1/4 kernel between levels with the end points kept"]
FLOORS = {"quick": {"values": 1500, "delays": 1500, "weights": 700, "counts": 600, "merge": 400, "constant": 600, "fold": 300, "rejected": 150},
          "thorough": {"values": 30000, "delays": 30000, "weights": 12000, "counts": 12000, "merge": 8000, "constant": 12000, "fold": 6000, "rejected": 2000}}


def length(rng, size, top=260):
    if top > 200 and rng.random() < 0.02:
        return int(rng.integers(260, 1500))
    if rng.random() < 0.5:
        n = size * 2 ** int(rng.integers(0, 6)) + int(rng.integers(-2, 3))
    else:
        n = int(rng.integers(2, top))
    return int(min(max(n, 2), 4 * top))


def some_data(rng, n, dims=None, cplx=False):
    lead = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(0, 4)) if dims is None else dims))
    d = rng.normal(size=lead + (n,)) * 10.0 ** int(rng.integers(-3, 4))
    if cplx:
        d = d + 1j * rng.normal(size=lead + (n,)) * np.abs(d).max()
    if rng.random() < 0.3:
        d[..., rng.random(n) < 0.05] = np.nan
    return d


def level_weights(n, levels, binning):
    """w[l][k, i]: weight of original delay i in entry k of level l"""
    w = [np.eye(n)]
    for _ in range(levels):
        a = w[-1]
        if binning == BINNING_MEAN:
            b = a.copy()
            for k in range(1, len(a) - 1):
                b[k] = 0.25 * a[k - 1] + 0.5 * a[k] + 0.25 * a[k + 1]
            a = b
        w.append(a[::2])
    return w


def nlevels(n, size):
    l = 0
    while size * 2 ** l < n:
        l += 1
    return l


def apply(w, data):
    """weighted averages; NaN only where a contributing value is NaN"""
    out = np.zeros(data.shape[:-1] + (len(w),), data.dtype)
    for k, row in enumerate(w):
        idx = np.nonzero(row)[0]
        out[..., k] = (data[..., idx] * row[idx]).sum(-1)
    return out


def ref_multilevel(data, size, binning):
    n = data.shape[-1]
    L = nlevels(n, size)
    w = level_weights(n, L, binning)
    out = np.full((L + 1,) + data.shape[:-1] + (size,), np.nan, data.dtype)
    for l in range(L + 1):
        v = apply(w[l][:size], data)
        out[l][..., :v.shape[-1]] = v
    return out, w


def ref_merged(lev):
    """-> delays, values: level 0 fully, the upper half of every other level"""
    size = lev.shape[-1]
    t = list(range(size))
    v = [lev[0][..., k] for k in range(size)]
    for l in range(1, len(lev)):
        for k in range(size // 2, size):
            t.append(k * 2 ** l)
            v.append(lev[l][..., k])
    return np.array(t), np.stack(v, -1)


def fold0(d):
    n = (d.shape[-1] + 1) // 2
    out = d[..., :n].copy()
    for k in range(1, n):
        out[..., k] = (d[..., k] + np.conj(d[..., -k])) / 2
    return out


def closer(ctx, got, want, key):
    fin = np.abs(want[np.isfinite(want)])
    ctx.close(got, want, key, rtol=1e-12, scale=float(fin.max()) if fin.size else 1.0)


def averaging(ctx, rng, i):
    size = int(rng.integers(1, 10)) if rng.random() < 0.8 else int(rng.integers(10, 18))
    cplx = bool(rng.random() < 0.35)
    fold = [None, True, False][int(rng.integers(0, 3))] if not cplx else bool(rng.random() < 0.5)
    n = length(rng, 2 * size)
    data = some_data(rng, n if not (cplx and fold) else 2 * n - 1, cplx=cplx)
    ctx.info = dict(size=size, length=n, shape=data.shape, complex=cplx, fold=fold)
    lin = fold0(data) if cplx and fold else data
    x, y = multitau.log_average(gen.layout(rng, data), size, **({} if fold is None else dict(fold=fold)))
    lev, w = ref_multilevel(lin, 2 * size, BINNING_MEAN)
    tx, ty = ref_merged(lev)
    ctx.equal(np.asarray(x), tx, "delays")
    closer(ctx, y, ty, "values")
    # the weights: an indicator of each delay shows what every output stands for
    if i % 2 == 0:
        W = multitau.log_average(np.eye(n), size)[1]                       # W[i, k]
        ok = ~np.isnan(W[0])
        ctx.check(bool((np.isnan(W) == np.isnan(W[0])[None]).all()), "weights")
        V = W[:, ok]
        ctx.check(bool((V >= 0).all() and np.allclose(V.sum(0), 1, rtol=0, atol=1e-12)), "weights", "not an average")
        tv = np.asarray(x)[ok]
        ctx.check(bool((np.diff(tv) > 0).all() and (tv < n).all()), "weights", "delays %r" % tv.tolist())
        got = (np.arange(n)[:, None] * V).sum(0)
        ctx.check(bool(np.allclose(got, tv, rtol=1e-12, atol=1e-12)), "weights", lambda: "delay %r stands for average delay %r" % (tv.tolist(), got.tolist()))
    c = float(rng.normal())
    yc = multitau.log_average(np.full((2, n), c), size)[1]
    ctx.check(bool(((yc == c) | np.isnan(yc)).all() or np.allclose(yc[~np.isnan(yc)], c, rtol=1e-14, atol=0)), "constant")
    ctx.mark("avg", n, size, data.ndim, cplx, fold)


def levels(ctx, rng, i):
    size = int(rng.integers(2, 18))
    binning = [BINNING_MEAN, BINNING_FIRST, True, None][int(rng.integers(0, 4))]
    cplx = bool(rng.random() < 0.3)
    fold = bool(rng.random() < 0.5)
    n = length(rng, size)
    data = some_data(rng, 2 * n - 1 if cplx and fold else n, cplx=cplx)
    if binning in (None, True):
        b, kw = BINNING_MEAN, {} if binning is None else dict(binning=BINNING_MEAN)
    else:
        b, kw = binning, dict(binning=binning)
    if cplx:
        kw["fold"] = fold
    ctx.info = dict(size=size, length=n, shape=data.shape, binning=b, complex=cplx, fold=fold)
    got = multitau.multilevel(gen.layout(rng, data), size, **kw)
    lev, w = ref_multilevel(fold0(data) if cplx and fold else data, size, b)
    closer(ctx, got, lev, "values")
    t = multitau.t_multilevel(got.shape)
    period = int(rng.integers(1, 9))
    tp = multitau.t_multilevel(got.shape, period)
    np.broadcast_shapes(tp.shape, got.shape)
    for l in range(len(got)):
        ctx.equal(np.broadcast_to(tp, got.shape)[l], np.broadcast_to(np.arange(size) * 2 ** (l + 1) * period, got.shape[1:]), "delays")
    ctx.equal(t * period, tp, "delays")
    if size % 2 == 0:
        tx, ty = ref_merged(lev)
        x, y = multitau.merge_multilevel(got)
        ctx.equal(np.asarray(x), tx, "merge")
        closer(ctx, y, ty, "merge")
        x, y = multitau.merge_multilevel(gen.layout(rng, got), mode="half")
        half = [(k * 2 ** l, got[l][..., k]) for l in range(len(got)) for k in range(size // 2, size)]
        ctx.equal(np.asarray(x), [a for a, _ in half], "merge")
        ctx.equal(y, np.stack([v for _, v in half], -1), "merge")
    elif len(got) > 1:
        ctx.raises(ValueError, lambda: multitau.merge_multilevel(got), "rejected", "odd level size")
    ctx.mark("levels", n, size, b, cplx, fold, data.ndim)


def kern(l):
    """l times [1/4,1/2,1/4], each on the next coarser grid"""
    k = np.ones(1)
    for j in range(l):
        s = np.zeros(2 * 2 ** j + 1)
        s[[0, 2 ** j, -1]] = [0.25, 0.5, 0.25]
        k = np.convolve(k, s)
    return k


def ref_count(c, size, binning):
    n = len(c)
    L = nlevels(n, size)
    out = np.full((L + 1, size), np.nan)
    for l in range(L + 1):
        k = kern(l) if binning == BINNING_MEAN else np.ones(1)
        h = len(k) // 2
        for j in range(min(size, -(-n // 2 ** l))):
            p = j * 2 ** l
            s1 = s2 = 0.0
            for m, kk in enumerate(k):
                q = p + m - h
                if 0 <= q < n:
                    s1 += kk * c[q]
                    s2 += kk * kk * c[q] ** 2
            with np.errstate(all="ignore"):
                out[l, j] = np.float64(s1) ** 3 / np.float64(s2)
    return out


def counts(ctx, rng, i):
    size = int(rng.integers(1, 9))
    n = length(rng, 2 * size, 120)
    kind = int(rng.integers(0, 3))
    c = [np.arange(n, 0, -1) * int(rng.integers(1, 3)), rng.integers(0, 200, n), rng.integers(1, 5, n) * 1000][kind]
    c = c.astype([np.int64, float][int(rng.integers(0, 2))])
    ctx.info = dict(size=size, counts=c)
    x, y = multitau.log_average_count(c, size)
    r = ref_count(c.astype(float), 2 * size, BINNING_MEAN)
    tx, ty = ref_merged(r)
    ctx.equal(np.asarray(x), tx, "delays")
    closer(ctx, y, ty, "counts")
    xd, yd = multitau.log_average(rng.normal(size=n), size)
    ctx.equal(np.asarray(x), np.asarray(xd), "delays")
    ctx.check(bool((np.isnan(yd) <= np.isnan(y)).all()), "counts", "count where there is no data")
    b = [BINNING_MEAN, BINNING_FIRST][int(rng.integers(0, 2))]
    ls = int(rng.integers(2, 14))
    m = multitau.multilevel_count(c, ls, b)
    closer(ctx, m, ref_count(c.astype(float), ls, b), "counts")
    if b == BINNING_FIRST:
        # nothing is averaged: the number of realizations of delay k*2^l is that of the delay itself
        for l in range(len(m)):
            v = c[::2 ** l][:ls].astype(float)
            ctx.close(m[l, :len(v)][v > 0], v[v > 0], "counts", rtol=1e-12)
    # constant counts grow by the same factor everywhere away from the ends
    for l in range(4):
        k = multitau.triangular_kernel(l)
        ctx.close(k, kern(l), "counts", rtol=1e-14)
    # what the multiple-tau functions announce
    N, p2 = int(rng.integers(20, 300)), 2 ** int(rng.integers(0, 4))
    lsz = 2 * int(rng.integers(1, 6))
    if N > lsz * 2:
        for cross in (True, False):
            fac = 2 if cross else 1
            f = multitau.ccorr_multi_count if cross else multitau.acorr_multi_count
            cf, cs = f(N, period=p2, level_size=lsz, binning=b)
            ctx.check(cf.shape == (p2 * lsz,), "counts", "shape %r" % (cf.shape,))
            lin = np.linspace(N / p2 * fac, (N - lsz) / p2 * fac, p2 * lsz)
            if not cross:
                lin[:p2 + 1] = np.linspace(0, lin[p2], p2 + 1)
            ctx.close(cf, lin, "counts", rtol=1e-12)
            w = ref_count(np.arange(N, 0, -1.0) * fac, lsz, b)[1:]
            if b == BINNING_FIRST:
                w = w / 2.0 ** np.arange(1, len(w) + 1)[:, None]
            closer(ctx, cs, w, "counts")
            xm, ym = multitau.log_merge_count(cf, cs, b)
            xs, ys = ref_merged(ref_count(cf, lsz, b))
            th = [(k * 2 ** l * 2 * p2, cs[l, k]) for l in range(len(cs)) for k in range(lsz // 2, lsz)]
            ctx.equal(np.asarray(xm), list(xs) + [a for a, _ in th], "delays")
            closer(ctx, ym, np.concatenate([ys, [v for _, v in th]]), "counts")
    ctx.mark("count", n, size, ls, b, kind, lsz, p2)


def merging(ctx, rng, i):
    """linear plus multi-level data become one curve"""
    ls = 2 * int(rng.integers(1, 9))
    period = int(rng.choice([1, 1, 2, 3, 4, 5, 8, 16]))
    nl = int(rng.integers(0, 5))
    cplx = bool(rng.random() < 0.3)
    fold = bool(cplx and rng.random() < 0.999)
    b = [BINNING_MEAN, BINNING_FIRST][int(rng.integers(0, 2))]
    lead = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(0, 3))))
    nf = period * ls
    if cplx:
        lin = some_data(rng, 2 * nf - 1, 1, True)
        lead = lin.shape[:-1]
        mul = rng.normal(size=(nl,) + lead + (2 * ls - 1,)) + 1j * rng.normal(size=(nl,) + lead + (2 * ls - 1,))
    else:
        lin = rng.normal(size=lead + (nf,))
        mul = rng.normal(size=(nl,) + lead + (ls,))
    ctx.info = dict(level_size=ls, period=period, levels=nl, complex=cplx, binning=b, lead=lead)
    x, y = multitau.log_merge(gen.layout(rng, lin), gen.layout(rng, mul) if nl else mul, binning=b, **(dict(fold=True) if cplx else {}))
    fl, fm = (fold0(lin), fold0(mul)) if cplx else (lin, mul)
    lev, w = ref_multilevel(fl, ls, b)
    tx, ty = ref_merged(lev)
    th = [(k * 2 ** l * 2 * period, fm[l][..., k]) for l in range(nl) for k in range(ls // 2, ls)]
    ctx.equal(np.asarray(x), list(tx) + [a for a, _ in th], "delays")
    closer(ctx, y, np.concatenate([ty] + [v[..., None] for _, v in th], -1), "merge")
    have = ~np.isnan(y).all(axis=tuple(range(y.ndim - 1)))
    if not np.isnan(lin).any():
        ctx.check(bool((np.diff(np.asarray(x)[have]) > 0).all()), "delays", lambda: "not increasing: %r" % np.asarray(x)[have].tolist())
    c = float(rng.normal())
    yc = multitau.log_merge(np.full((2, nf), c), np.full((nl, 2, ls), c), binning=b)[1]
    ctx.check(bool(np.allclose(yc[~np.isnan(yc)], c, rtol=1e-14, atol=0)), "constant")
    if cplx:
        ctx.raises(ValueError, lambda: multitau.log_merge(lin, mul), "rejected", "complex without fold")
        ctx.raises(ValueError, lambda: multitau.log_average(lin), "rejected", "complex without fold")
        ctx.raises(ValueError, lambda: multitau.multilevel(lin), "rejected", "complex without fold")
    else:
        ctx.raises(ValueError, lambda: multitau.log_merge(lin[..., :-1], mul) if ls > 1 else None, "rejected", "incompatible lengths")
        ctx.raises(ValueError, lambda: multitau.log_average(lin, 0), "rejected", "size 0")
        ctx.raises(ValueError, lambda: multitau.multilevel(lin, 1), "rejected", "size 1")
        ctx.raises(ValueError, lambda: multitau.multilevel_count(np.ones(8), 1), "rejected", "size 1")
        ctx.raises(ValueError, lambda: multitau.multilevel(lin, ls, binning=7), "rejected", "binning")
        ctx.raises(ValueError, lambda: multitau.log_merge(lin, mul, binning=-3), "rejected", "binning")
        ctx.raises(ValueError, lambda: multitau.merge_multilevel(lev, mode="none"), "rejected", "mode")
        ctx.raises(ValueError, lambda: nm.fold_data(lin), "rejected", "fold of real data")
    ctx.mark("merge", ls, period, nl, cplx, b, len(lead))


def end_to_end(ctx, rng, i):
    """a correlation result goes through normalization and merging: values at the announced delays"""
    ls = 2 * int(rng.integers(3, 7))
    N = int(rng.integers(ls * 4, 220))
    h, w = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    f = rng.normal(size=(N, h, w)) + 1j * rng.normal(size=(N, h, w))
    cross = bool(rng.random() < 0.5)
    data = multitau.ccorr_multi(f, f[::-1].copy(), level_size=ls, norm=1) if cross else multitau.acorr_multi(f, level_size=ls, norm=1)
    z = np.zeros((h, w))
    fast, slow = multitau.normalize_multi(data, (z, z), (z + 1, z + 1), norm=1)
    x, y = multitau.log_merge(fast, slow)
    x = np.asarray(x)
    ctx.info = dict(level_size=ls, frames=N, cross=cross, shape=(h, w))
    ctx.check(bool((np.diff(x) > 0).all()), "delays")
    ctx.equal(y[..., :ls], fast, "values")
    k = ls
    for l in range(len(slow)):
        for q in range(ls // 2, ls):
            ctx.check(int(x[k]) == q * 2 ** (l + 1), "delays")
            ctx.equal(y[..., k], slow[l][..., q], "values")
            k += 1
    ctx.check(k == len(x), "delays")
    xs, yl = multitau.merge_multilevel(slow, mode="half")
    ctx.equal(2 * np.asarray(xs), x[ls:], "delays")
    ctx.equal(yl, y[..., ls:], "merge")
    ctx.mark("e2e", ls, N, cross)


def folding(ctx, rng, i):
    n = int(rng.integers(1, 30))
    lead = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(0, 4))))
    d = (rng.normal(size=lead + (2 * n - 1,)) + 1j * rng.normal(size=lead + (2 * n - 1,)))
    if rng.random() < 0.2:
        d = d.astype(np.complex64)
    ctx.info = dict(n=n, lead=lead, dtype=str(d.dtype))
    g = gen.layout(rng, d)
    idx = np.arange(n)
    ctx.equal(nm.fold_data(g, 1), d[..., :n], "fold")
    ctx.equal(nm.fold_data(g, -1), np.stack([d[..., -k if k else 0] for k in idx], -1), "fold")
    ctx.close(nm.fold_data(g), fold0(d), "fold", rtol=1e-6 if d.dtype == np.complex64 else 1e-14)
    ctx.close(nm.fold_data(g, 0), fold0(d), "fold", rtol=1e-6 if d.dtype == np.complex64 else 1e-14)
    ctx.raises(ValueError, lambda: nm.fold_data(d, 2), "rejected", "mode 2")
    # translational misalignment: a common phase
    h = rng.normal(size=lead + (n,)) + 1j * rng.normal(size=lead + (n,))
    h[..., 0] = np.abs(h[..., 0]) + 0.1
    s = np.concatenate([h, np.conj(h[..., :0:-1])], -1)
    a = np.exp(1j * rng.uniform(-np.pi, np.pi, size=lead + (1,)))
    for f in (nm.shift_data, nm.equalize_data):
        ctx.close(f(s * a), s, "shift", rtol=1e-12)
    d = d.astype(complex)
    q, e = nm.shift_data(d), nm.equalize_data(d)
    ctx.close(np.abs(q), np.abs(d), "shift", rtol=1e-13)
    for r in (q, e):
        ctx.close(r[..., 0], np.abs(d[..., 0]) + 0j, "shift", rtol=1e-13)
    if n > 1:
        ctx.close(e[..., 1:n], np.conj(e[..., :n - 1:-1]), "shift", rtol=1e-13)
        ctx.close(np.abs(e[..., 1:n]) ** 2, np.abs(d[..., 1:n]) * np.abs(d[..., :n - 1:-1]), "shift", rtol=1e-12)
        u, v = q[..., 1:n] / np.abs(q[..., 1:n]), q[..., :n - 1:-1] / np.abs(q[..., :n - 1:-1])
        ctx.close(u, np.conj(v), "shift", rtol=1e-12)
    ctx.raises(ValueError, lambda: nm.shift_data(d.real), "rejected", "real data")
    ctx.raises(ValueError, lambda: nm.equalize_data(d.real), "rejected", "real data")
    ctx.mark("fold", n, len(lead))


STREAMS = {"averaging": dict(fn=averaging, quick=800, thorough=16000), "levels": dict(fn=levels, quick=700, thorough=14000), "counts": dict(fn=counts, quick=160, thorough=4000),
           "merging": dict(fn=merging, quick=400, thorough=8000), "end": dict(fn=end_to_end, quick=60, thorough=1000), "folding": dict(fn=folding, quick=200, thorough=4000)}
