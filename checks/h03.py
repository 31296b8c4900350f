import itertools
import numpy as np
from gmon import META, workload, gen
from glimpse import Raster, helpers

META["rule"] = (
    "A case is a random array (shape, data type, values, missing cells), a random inclusion mask and random filter "
    "parameters passed through one array helper. The oracle evaluates the documented statistic directly (explicit kernel "
    "sums, window maxima, sorted counts). Excluded cells are poisoned with NaN or extreme values, so a leak is visible. "
    "Non-trivial if the array has more than one cell."
)
META["require"] = {
    "normalized": 100, "gaussian cells": 5000, "gaussian masked integer arrays": 20, "maximum cells": 5000,
    "filled cells": 300, "unfilled excluded cells": 300, "cdf values": 3000, "matched values": 3000, "distances": 3000,
    "crevasse cells": 1000, "data types": 50, "cells next to only the lowest value": 10,
}
META["assumptions"] = [
    "unmasked filtering of integer arrays keeps their data type (as the underlying library does) and may truncate each pass",
    "an excluded cell with no included cell within reach has no defined filled value",
]
PAD = {"reflect": "symmetric", "nearest": "edge", "mirror": "reflect", "wrap": "wrap", "constant": "constant"}
DT = ("f8", "f8", "f4", "u1", "i2", "i4", "i8", "u2", "i1")


def _array(rng, dtype, shape):
    dt = np.dtype(dtype)
    if dt.kind == "f":
        a = rng.normal(rng.normal(0, 100), gen.loguniform(rng, 0.1, 100), shape)
        if rng.random() < 0.3:
            a = np.round(a)
        return a.astype(dt)
    if dt.kind == "b":
        return rng.random(shape) < rng.random()
    info = np.iinfo(dt)
    lo, hi = max(info.min, -30000), min(info.max, 30000)
    if rng.random() < 0.5:
        lo, hi = (info.min, info.min + int(gen.pick(rng, (0, 1, 3)))) if rng.random() < 0.5 and dt.itemsize < 8 else (max(lo, -5), 5)
    return rng.integers(lo, hi, shape, endpoint=True).astype(dt)


def _mask(rng, shape):
    p = gen.pick(rng, (0.1, 0.5, 0.9, 0.98, 1.0))
    mask = rng.random(shape) < p
    if rng.random() < 0.3:  # a blob of excluded cells
        i = tuple(slice(*sorted(rng.integers(0, n + 1, 2))) for n in shape)
        mask[i] = False
    return mask


def _poison(rng, a, mask):
    a = a.copy()
    n = (~mask).sum()
    if a.dtype.kind == "f":
        a[~mask] = rng.choice([np.nan, np.nan, 1e30, -1e30], n)
    elif a.dtype.kind == "b":
        a[~mask] = rng.random(n) < 0.5
    else:
        info = np.iinfo(a.dtype)
        a[~mask] = rng.choice(np.array([info.max, info.min, info.max], a.dtype), n)
    return a


def _pad1(a, axis, r0, r1, mode):
    if mode in ("symmetric", "reflect", "wrap", "edge"):
        n = a.shape[axis]
        i = np.arange(-r0, n + r1)
        if mode == "edge":
            i = np.clip(i, 0, n - 1)
        elif mode == "wrap":
            i = i % n
        elif mode == "symmetric":
            i = i % (2 * n)
            i = np.where(i >= n, 2 * n - 1 - i, i)
        else:
            p = max(2 * n - 2, 1)
            i = i % p
            i = np.where(i >= n, p - i, i)
        return np.take(a, i, axis=axis)
    w = [(0, 0)] * a.ndim
    w[axis] = (r0, r1)
    return np.pad(a, w, mode="constant")


def gauss(a, sigma, mode, truncate):
    """Separable gaussian average by explicit sums."""
    a = np.asarray(a, dtype=float)
    for axis, s in enumerate(np.broadcast_to(sigma, a.ndim)):
        if s < 1e-10:
            continue
        r = int(truncate * s + 0.5)
        k = np.exp(-0.5 * (np.arange(-r, r + 1) / s) ** 2)
        k /= k.sum()
        p = _pad1(a, axis, r, r, PAD[mode])
        n = a.shape[axis]
        a = sum(k[j] * np.take(p, np.arange(j, j + n), axis=axis) for j in range(2 * r + 1))
    return a


def windows(a, size, mode, footprint=None):
    """All shifted copies of a within a window (axis 0)."""
    sizes = footprint.shape if footprint is not None else tuple(np.broadcast_to(size, a.ndim))
    p = a
    for axis, s in enumerate(sizes):
        p = _pad1(p, axis, s // 2, s - 1 - s // 2, PAD[mode])
    out = []
    for off in itertools.product(*(range(s) for s in sizes)):
        if footprint is None or footprint[off]:
            out.append(p[tuple(slice(o, o + n) for o, n in zip(off, a.shape))])
    return np.stack(out)


def _gparams(rng, ndim):
    sigma = gen.pick(rng, (0.5, 1, 2, 3.3))
    if rng.random() < 0.2:
        sigma = tuple(float(v) for v in rng.uniform(0, 2, ndim))
    kw = {"sigma": sigma}
    if rng.random() < 0.4:
        kw["truncate"] = float(gen.pick(rng, (1, 2, 4)))
    if rng.random() < 0.4:
        kw["mode"] = gen.pick(rng, tuple(PAD))
    return kw


def _mparams(rng, ndim):
    kw = {}
    if rng.random() < 0.25:
        fp = rng.random(tuple(rng.integers(1, 5, ndim))) < 0.6
        fp[tuple(s // 2 for s in fp.shape)] = True
        kw["footprint"] = fp
    else:
        kw["size"] = gen.pick(rng, (1, 2, 3, 4, 5, tuple(int(v) for v in rng.integers(1, 6, ndim))))
    if rng.random() < 0.4:
        kw["mode"] = gen.pick(rng, ("reflect", "nearest", "mirror", "wrap"))
    return kw


def _shape(rng, lo=1, hi=14):
    return tuple(int(v) for v in rng.integers(lo, hi, gen.pick(rng, (1, 2, 2, 2, 2, 3))))


@workload(quick=500, thorough=6000)
def normalized(rng, m):
    shape = _shape(rng, 2)
    a = _array(rng, gen.pick(rng, DT), shape)
    if rng.random() < 0.2:
        a = np.asfortranarray(a)
    m.case(a=a)
    if np.std(a.astype(float)) < 1e-3 * max(1, abs(a.astype(float)).max()):
        m.trivial()
        return
    x = m.call(helpers.normalize, a)
    f = a.astype(float)
    mean = float(sum(f.ravel().tolist()) / f.size)
    sd = (sum((v - mean) ** 2 for v in f.ravel().tolist()) / f.size) ** 0.5
    tol = 1e-9 if a.dtype != np.float32 else 2e-3
    m.check(np.asarray(x).dtype.kind == "f", "normalized-is-floating", dtype=np.asarray(x).dtype)
    m.close(x, (f - mean) / sd, "normalized", rtol=tol, atol=tol)
    m.close(np.mean(x, dtype=float), 0, "normalized-mean", atol=tol)
    m.close(np.std(x, dtype=float), 1, "normalized-spread", atol=tol)
    m.count("normalized")


def gaussian_expected(a, mask, fill, kw):
    """Returns expected values and where they are defined."""
    mode, trunc = kw.get("mode", "reflect"), kw.get("truncate", 4.0)
    f = np.where(mask, a, 0).astype(float)
    num, den = gauss(f, kw["sigma"], mode, trunc), gauss(mask.astype(float), kw["sigma"], mode, trunc)
    with np.errstate(all="ignore"):
        e = num / den
    known = mask | (den > 1e-6)
    known &= den > 1e-6
    if not fill:
        e = np.where(mask, e, a)
        known = known | ~mask
    return e, known


@workload(quick=700, thorough=9000)
def gaussian(rng, m):
    shape = _shape(rng)
    a = _array(rng, gen.pick(rng, DT), shape)
    kw = _gparams(rng, a.ndim)
    scale = max(1.0, float(np.abs(a.astype(float)).max()))
    tol = scale * (1e-9 if a.dtype in (np.float64, np.int64, np.int32) else 1e-4)
    if rng.random() < 0.25:
        m.case(a=a, kw=kw)
        out = m.call(helpers.gaussian_filter, a, **kw)
        if a.dtype.kind in "iu":
            tol = a.ndim + 1e-6
        m.close(out, gauss(a, kw["sigma"], kw.get("mode", "reflect"), kw.get("truncate", 4.0)), "gaussian", rtol=0, atol=tol, kw=kw)
        m.count("gaussian cells", a.size)
        return
    mask = _mask(rng, shape)
    a = _poison(rng, a, mask)
    fill = bool(rng.random() < 0.5)
    m.case(a=a, mask=mask, fill=fill, kw=kw)
    m.count("gaussian masked integer arrays", a.dtype.kind in "iu")
    out = np.asarray(m.call(helpers.gaussian_filter, a, mask=mask, fill=fill, **kw))
    e, known = gaussian_expected(a, mask, fill, kw)
    m.must(out.shape == shape, "gaussian/shape")
    big = mask if not fill else np.ones(shape, bool)
    m.close(np.where(big & known, out, 0), np.where(big & known, e, 0), "gaussian-masked", rtol=0, atol=tol, kw=kw, fill=fill)
    if not fill:
        rtol = 1e-6 if a.dtype.itemsize <= 4 and a.dtype.kind == "f" else 1e-12
        m.close(out[~mask], a[~mask], "excluded-cells-unchanged", rtol=rtol, atol=0)
        m.count("unfilled excluded cells", (~mask).sum())
    else:
        m.count("filled cells", (known & ~mask).sum())
    m.count("gaussian cells", known.sum())


def maximum_expected(a, mask, fill, kw):
    mode = kw.get("mode", "reflect")
    w = windows(a, kw.get("size"), mode, kw.get("footprint"))
    wm = windows(mask, kw.get("size"), mode, kw.get("footprint"))
    low = -np.inf if a.dtype.kind == "f" else (False if a.dtype.kind == "b" else np.iinfo(a.dtype).min)
    e = np.where(wm, w, low).max(axis=0)
    keep = ~wm.any(axis=0) if fill else ~mask
    return np.where(keep, a, e), ~mask & ~keep, keep


@workload(quick=700, thorough=9000)
def maximum(rng, m):
    shape = _shape(rng)
    a = _array(rng, gen.pick(rng, DT + ("b1",)), shape)
    kw = _mparams(rng, a.ndim)
    if rng.random() < 0.2:
        m.case(a=a, kw=kw)
        out = m.call(helpers.maximum_filter, a, **kw)
        e = windows(a, kw.get("size"), kw.get("mode", "reflect"), kw.get("footprint")).max(axis=0)
        m.equal(np.asarray(out), e, "maximum", kw=kw)
        m.count("maximum cells", a.size)
        return
    mask = _mask(rng, shape)
    a = _poison(rng, a, mask)
    fill = bool(rng.random() < 0.5)
    m.case(a=a, mask=mask, fill=fill, kw=kw)
    out = np.asarray(m.call(helpers.maximum_filter, a, mask=mask, fill=fill, **kw))
    e, filled, keep = maximum_expected(a, mask, fill, kw)
    m.equal(out, e, "maximum-masked", kw=kw, fill=fill)
    m.equal(out.dtype, a.dtype, "maximum-dtype")
    m.count("filled cells", filled.sum())
    m.count("unfilled excluded cells", keep.sum())
    if a.dtype.kind in "iu" and fill:
        m.count("cells next to only the lowest value", (filled & (e == np.iinfo(a.dtype).min)).sum())
    m.count("maximum cells", a.size)


@workload(quick=400, thorough=6000)
def cdfs(rng, m):
    a = _array(rng, gen.pick(rng, DT), _shape(rng))
    if rng.random() < 0.2 and a.dtype.kind == "f":
        a.ravel()[rng.integers(a.size)] = np.inf
    m.case(a=a)
    inverse = bool(rng.random() < 0.6)
    out = m.call(helpers.compute_cdf, a, return_inverse=inverse)
    flat = sorted(a.ravel().tolist())
    vals = sorted(set(flat))
    m.equal(len(out), 3 if inverse else 2, "cdf-parts")
    m.equal(np.asarray(out[0]), np.array(vals, a.dtype), "cdf-values")
    p = [sum(x <= v for x in flat) / len(flat) for v in vals]
    m.close(out[1], p, "cdf-probabilities", rtol=0, atol=1e-12)
    m.close(out[1][-1], 1, "cdf-ends-at-one", rtol=0, atol=1e-12)
    if inverse:
        m.equal(np.asarray(out[0])[out[2]].ravel(), a.ravel(), "cdf-inverse")
    m.count("cdf values", len(vals))


def interp(q, p, v):
    if q <= p[0]:
        return v[0]
    for i in range(1, len(p)):
        if q <= p[i]:
            return v[i - 1] + (v[i] - v[i - 1]) * (q - p[i - 1]) / (p[i] - p[i - 1])
    return v[-1]


@workload(quick=400, thorough=6000)
def matching(rng, m):
    a = _array(rng, gen.pick(rng, DT), _shape(rng))
    kind = gen.pick(rng, ("array", "array", "cdf", "lists", "same", "repeat"))
    b = _array(rng, gen.pick(rng, DT), _shape(rng))
    if kind == "same":
        b = rng.permutation(a.ravel()).reshape(a.shape)
    elif kind == "repeat":
        b = np.repeat(a.ravel(), int(rng.integers(2, 5))).reshape(-1, 1)
    m.case(a=a, b=b, kind=kind)
    bv = sorted(b.ravel().tolist())
    v = sorted(set(bv))
    p = [sum(x <= u for x in bv) / len(bv) for u in v]
    ref = {"cdf": (np.array(v), np.array(p)), "lists": (v, p)}.get(kind, b)
    out = np.asarray(m.call(helpers.match_cdf, a, ref))
    m.must(out.shape == a.shape, "matched-shape", shape=out.shape)
    av = sorted(a.ravel().tolist())
    e = {u: interp(sum(x <= u for x in av) / len(av), p, v) for u in set(av)}
    scale = max(1.0, max(abs(x) for x in v))
    m.close(out, np.array([e[u] for u in a.ravel().tolist()]).reshape(a.shape), "matched-values", rtol=0, atol=1e-7 * scale)
    if kind in ("same", "repeat"):
        m.close(out, a.astype(float), "own-distribution-is-identity", rtol=0, atol=1e-7 * scale)
    o = np.argsort(a.ravel(), kind="stable")
    m.check(np.all(np.diff(out.ravel()[o]) >= -1e-7 * scale), "matching-keeps-order")
    m.check(out.max() <= v[-1] + 1e-9 * scale and out.min() >= v[0] - 1e-9 * scale, "matched-range")
    m.close(out.max(), v[-1], "greatest-to-greatest", rtol=0, atol=1e-7 * scale)
    # the distribution is reproduced: the share of cells at or below any target value
    oq, tol = out.ravel(), 1.0 * max(np.bincount(np.unique(a, return_inverse=True)[1].ravel())) / a.size
    for u, q in zip(v[:20], p):
        share = np.mean(oq <= u + 1e-11 * scale)
        m.check(abs(share - q) <= tol + max(np.diff([0] + p)) + 1e-9, "distribution-reproduced", u=u, share=share, q=q)
    m.count("matched values", a.size)


@workload(quick=250, thorough=4000)
def distances(rng, m):
    n1, n2, d = int(rng.integers(1, 12)), int(rng.integers(1, 12)), int(rng.integers(1, 5))
    x, y = rng.normal(0, 10, (n1, d)), rng.normal(0, 10, (n2, d))
    if rng.random() < 0.3:
        x, y = np.round(x).astype(int), np.round(y).astype(int)
    if rng.random() < 0.3:
        y[: min(n1, n2)] = x[: min(n1, n2)]
    metric = gen.pick(rng, (None, "euclidean", "sqeuclidean", "cityblock", "chebyshev"))
    m.case(x=x, y=y, metric=metric)
    kw = {"metric": metric} if metric else {}
    xa, ya = (x[:, 0], y[:, 0]) if d == 1 and rng.random() < 0.7 else (x, y)
    form = gen.pick(rng, (np.asarray, lambda v: v.tolist()))
    out = m.call(helpers.pairwise_distance, form(xa), form(ya), **kw)
    f = {None: lambda v: sum(k * k for k in v) ** 0.5, "euclidean": lambda v: sum(k * k for k in v) ** 0.5,
         "sqeuclidean": lambda v: sum(k * k for k in v), "cityblock": lambda v: sum(map(abs, v)), "chebyshev": lambda v: max(map(abs, v))}[metric]
    m.close(out, [[f((p - q).tolist()) for q in y] for p in x], "distances")
    m.count("distances", n1 * n2)


@workload(quick=60, thorough=200)
def limits(rng, m):
    dt = np.dtype(gen.pick(rng, ("u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f2", "f4", "f8", ">i2", ">f4", "b1", "U3", "M8[s]", "c16", "O")))
    m.case(dtype=dt)
    m.count("data types")
    if dt.kind in "UMcO":
        m.raises(ValueError, lambda: helpers.numpy_dtype_minmax(dt), "no-limits-for-other-types", dtype=dt)
        return
    lo, hi = helpers.numpy_dtype_minmax(dt)
    if dt.kind == "b":
        m.equal((bool(lo), bool(hi)), (False, True), "limits")
    elif dt.kind in "iu":
        b = 8 * dt.itemsize
        e = (0, 2**b - 1) if dt.kind == "u" else (-(2 ** (b - 1)), 2 ** (b - 1) - 1)
        m.equal((int(lo), int(hi)), e, "limits", dtype=dt)
    else:
        m.check(np.isfinite(lo) and np.isfinite(hi) and float(lo) == -float(hi), "limits", dtype=dt)
        with np.errstate(all="ignore"):
            m.check(np.isinf(np.array(hi, dt) * np.array(1.01, dt)) and not np.isinf(np.array(hi, dt)), "limits", dtype=dt)


@workload(quick=250, thorough=3000)
def crevasses(rng, m):
    shape = tuple(int(v) for v in rng.integers(2, 16, 2))
    a = _array(rng, gen.pick(rng, ("f8", "f8", "f4", "i4")), shape)
    mk, gk = _mparams(rng, 2), _gparams(rng, 2)
    how = gen.pick(rng, ("none", "array", "callable", "default"))
    mask = np.ones(shape, bool) if how in ("none", "default") else _mask(rng, shape)
    fill = bool(rng.random() < 0.5)
    if how == "callable":
        a = a.astype(float)
        a[~mask] = np.nan
    elif how == "array":
        a = _poison(rng, a, mask)
    if how == "default":
        mk, gk = {"size": 5}, {"sigma": 5}
    m.case(a=a, mask=mask, how=how, maximum=mk, gaussian=gk, fill=fill)
    r = Raster(a.copy(), x=(0, shape[1] * 2.0), y=(shape[0] * 2.0, 0))
    before = (r.xlim.copy(), r.ylim.copy(), r.x.copy())
    held = r.array
    arg = {"none": None, "array": mask, "callable": lambda v: ~np.isnan(v)}.get(how)
    if how == "default":
        m.call(r.fill_crevasses)
    else:
        m.call(r.fill_crevasses, maximum=mk, gaussian=gk, mask=arg, fill=fill)
    m.equal(held, a, "original-array-untouched")
    scale = max(1.0, float(np.nanmax(np.abs(np.where(mask, a, 0).astype(float)))))
    tol = scale * (1e-9 if a.dtype in (np.float64, np.int64, np.int32) else 1e-4)
    x, _, _ = maximum_expected(a, mask, fill, mk)
    if how in ("none", "default"):
        e, known = gauss(x, gk["sigma"], gk.get("mode", "reflect"), gk.get("truncate", 4.0)), mask
        if a.dtype.kind in "iu":
            tol = 2 + 1e-6
    else:
        e, known = gaussian_expected(x, mask, fill, gk)
    look = known & (mask | fill)
    m.must(r.array.shape == shape, "crevasse-shape")
    m.close(np.where(look, r.array, 0), np.where(look, e, 0), "crevasses", rtol=0, atol=tol)
    if not fill:
        m.close(r.array[~mask], a[~mask], "crevasse-excluded", rtol=1e-6, atol=0)
    m.equal(before[0], r.xlim, "grid-unchanged")
    m.equal(before[1], r.ylim, "grid-unchanged")
    m.equal(before[2], r.x, "grid-unchanged")
    m.count("crevasse cells", look.sum())
