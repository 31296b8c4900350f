import numpy as np
import scipy.interpolate
import scipy.ndimage
from gmon import META, workload, gen, gridops as go
from glimpse import Grid, Raster

META["rule"] = (
    "A case is a random raster (either axis direction, one row or column, constant, integer, "
    "single precision, with missing cells) sampled at points or on grids - inside, on cell "
    "centres, on the limits, in the outer half cells, outside, in any order - by every supported "
    "order; or a history of edits with samples before and after each. The oracle evaluates the "
    "interpolant from cell values with its own weights or one-dimensional splines."
)
META["require"] = {
    "points judged": 20000, "grid samples judged": 20000, "points at cell centres": 2000, "missing samples": 1000,
    "samples after edits": 800, "resamplings": 150, "points outside": 1000, "unsorted grids": 150, "samples far from missing cells": 300,
}
META["assumptions"] = [
    "not judged: points halfway between cells (order 0), points whose only missing neighbours have zero weight, "
    "splines of order > 1 next to missing cells other than at cell centres, extrapolation on grids",
    "point samples use orders 0 and 1, grid samples 1 to 5 (as documented), with more cells than the order",
]


def _raster(rng, kind=None, lo=2, hi=13):
    """kind: 2, 1 (one row or column), 0 (one cell)."""
    kind = gen.pick(rng, (2, 2, 2, 2, 1, 1, 0)) if kind is None else kind
    n = [int(v) for v in rng.integers(lo, hi, 2)]
    if kind == 1:
        n[int(rng.integers(2))] = 1
    elif kind == 0:
        n = [1, 1]
    lim = [go.random_lim(rng, n[0]), go.random_lim(rng, n[1])]
    a = go.random_array(rng, n[1], n[0])
    return Raster(a.copy(), x=lim[0], y=lim[1]), go.Model(lim, n, a)


def _axis(M, j, v, order):
    """Indices and weights (k, len(v)) along one axis, and whether they are sure."""
    n = M.n[j]
    v = np.asarray(v, float)
    if n == 1:
        return np.zeros((1, len(v)), int), np.ones((1, len(v))), np.ones(len(v), bool)
    t = (v - M.lim[j][0]) / M.d(j) - 0.5
    if order == 0:
        i = np.clip(np.floor(t + 0.5), 0, n - 1).astype(int)
        sure = (np.abs(t + 0.5 - np.round(t + 0.5)) > 1e-4) | (t < 0) | (t > n - 1)
        return i[None], np.ones((1, len(v))), sure
    i = np.clip(np.floor(t), 0, n - 2).astype(int)
    w = t - i
    # next to a centre either neighbour pair may be used (with no weight on the far one)
    k = np.round(t)
    near = np.abs(t - k) < 1e-3
    other = np.where(w < 0.5, i, i + 1)
    far = [np.where(near, np.clip(k + s, 0, n - 1), other).astype(int) for s in (-1, 1)]
    zero = np.zeros(len(v))
    return np.vstack((i, i + 1, *far)), np.vstack((1 - w, w, zero, zero)), np.ones(len(v), bool)


def _mix(M, ix, wx, iy, wy):
    """Weighted sums; NaN where a weighty cell is missing; sure where it matters."""
    a = np.asarray(M.array, float)
    nan = np.isnan(a)
    z = np.zeros(ix.shape[1])
    lost, vague = np.zeros(len(z), bool), np.zeros(len(z), bool)
    for p in range(len(ix)):
        for q in range(len(iy)):
            w = wx[p] * wy[q]
            miss = nan[iy[q], ix[p]]
            z += np.where(miss, 0, w * np.where(miss, 0, a[iy[q], ix[p]]))
            lost |= miss & (np.abs(w) > 1e-3)
            vague |= miss & (np.abs(w) <= 1e-3)
    z[lost] = np.nan
    return z, ~vague | lost


def ref_points(M, xy, order):
    ix, wx, sx = _axis(M, 0, xy[:, 0], order)
    iy, wy, sy = _axis(M, 1, xy[:, 1], order)
    z, sure = _mix(M, ix, wx, iy, wy)
    return z, sure & sx & sy


def _spline(c, a, v, k):
    """Interpolating spline of order k along axis 0."""
    if len(c) == 1:
        return np.repeat(a[:1], len(v), axis=0)
    s = np.argsort(c)
    # scaled for accuracy
    o, h = c[s][0], c[s][1] - c[s][0]
    u = (c[s] - o) / h
    # knots at the points (odd) or between (even), none next to the ends
    inner = u if k % 2 else (u[1:] + u[:-1]) / 2
    e = (k + 1) // 2 if k % 2 else k // 2
    t = np.concatenate((np.repeat(u[0], k + 1), inner[e : len(inner) - e], np.repeat(u[-1], k + 1)))
    f = scipy.interpolate.make_interp_spline(u, a[s], k=k, t=t)
    return f((np.asarray(v, float) - o) / h)


def ref_grid(M, x, y, order):
    """Samples on a grid and whether they are sure."""
    a = np.asarray(M.array, float)
    xx, yy = np.meshgrid(x, y)
    pts = np.column_stack((xx.ravel(), yy.ravel()))
    if order == 0 or np.isnan(a).any():
        z, sure = ref_points(M, pts, min(order, 1))
        if order > 1:
            # only missing samples and cell centres are sure
            near = np.ones(len(pts), bool)
            for j in range(2):
                t = (pts[:, j] - M.lim[j][0]) / M.d(j) - 0.5
                if M.n[j] > 1:
                    near &= np.abs(t - np.round(t)) < 1e-6
            sure &= np.isnan(z) | near
        return z.reshape(xx.shape), sure.reshape(xx.shape)
    z = _spline(M.centers(1), a, y, order)
    z = _spline(M.centers(0), z.T, x, order).T
    return z, np.ones(z.shape, bool)


def _scale(M):
    a = np.asarray(M.array, float)
    a = a[np.isfinite(a)]
    s = np.abs(a).max() if a.size else 0
    return (s + 1) * (1e-4 if np.asarray(M.array).dtype == np.float32 else 1e-6)


def _points(rng, M, n, outside=False, edges=True):
    lo, hi = (-0.5, 1.5) if outside else (0, 1) if edges else (1e-5, 1 - 1e-5)
    t = np.column_stack([rng.uniform(lo, hi, n) * M.n[j] for j in range(2)])
    c = rng.random(n) < 0.3
    t[c] = np.clip(np.floor(t[c]), 0, np.array(M.n) - 1) + 0.5
    xy = np.column_stack([M.lim[j][0] + t[:, j] * M.d(j) for j in range(2)])
    for j in range(2):
        e = rng.random(n) < (0.05 if edges else 0)
        xy[e, j] = np.array(M.lim[j])[rng.integers(0, 2, e.sum())]
    inside = np.ones(n, bool)
    for j in range(2):
        inside &= (xy[:, j] >= min(M.lim[j])) & (xy[:, j] <= max(M.lim[j]))
    return xy, inside, c


def _judge(m, got, want, sure, M, mech, **kw):
    got = np.asarray(got, float)
    if not m.check(got.shape == want.shape, mech + "/shape", got=got.shape, want=want.shape, **kw):
        return False
    m.count("missing samples", (np.isnan(want) & sure).sum())
    return m.close(np.where(sure, got, 0), np.where(sure, want, 0), mech, rtol=0, atol=_scale(M), lim=M.lim, n=M.n, array=M.array, **kw)


def _sample_points(rng, m, r, M, mech, n=25, edges=True, **kw):
    order = int(rng.integers(0, 2))
    xy, inside, centre = _points(rng, M, n, edges=edges)
    xy = xy[inside]
    m.count("points judged", len(xy))
    m.count("points at cell centres", (centre[inside]).sum())
    want, sure = ref_points(M, xy, order)
    got = m.call(r.sample, xy, order=order)
    return _judge(m, got, want, sure, M, f"{mech}/order{order}", xy=xy, **kw)


def _orders(M, grid=True):
    dims = [n for n in M.n if n > 1]
    if not dims:
        return list(range(0 if grid else 0, 6))
    top = min(min(dims) - 1, 5)
    if len(dims) == 1 and np.isnan(np.asarray(M.array, float)).any():
        top = min(top, 1)
    return list(range(0 if len(dims) < 2 else 1, top + 1))


def _sample_grid(rng, m, r, M, mech, edges=True, **kw):
    order = gen.pick(rng, _orders(M))
    xy, inside, _ = _points(rng, M, 9, edges=edges)
    x, y = xy[inside][:, 0], xy[inside][: int(rng.integers(1, 8)), 1]
    if not len(x):
        return True
    how = gen.pick(rng, ("any", "any", "up", "down"))
    if how != "any":
        x, y = np.sort(x), np.sort(y)
        if how == "down":
            x, y = x[::-1], y[::-1]
    else:
        m.count("unsorted grids")
    want, sure = ref_grid(M, x, y, order)
    m.count("grid samples judged", sure.sum())
    got = m.call(r.sample, (x, y), grid=True, order=order)
    nan = np.isnan(np.asarray(M.array, float))
    if order > 1 and nan.any() and np.shape(got) == want.shape:
        # missing cells have no say further away
        wide = scipy.ndimage.maximum_filter(nan, size=5, mode="constant", cval=False)
        cells = [np.clip(np.floor((v - M.lim[j][0]) / M.d(j)), 0, M.n[j] - 1).astype(int) for j, v in enumerate((x, y))]
        far = ~wide[np.ix_(cells[1], cells[0])]
        m.count("samples far from missing cells", far.sum())
        m.check(np.isfinite(np.asarray(got, float)[far]).all(), f"{mech}/finite-away-from-missing", x=x, y=y, order=order)
    return _judge(m, got, want, sure, M, f"{mech}/order{order}", x=x, y=y, **kw)


@workload(quick=1000, thorough=25000)
def points(rng, m):
    r, M = _raster(rng)
    m.case(lim=M.lim, n=M.n, array=M.array)
    _sample_points(rng, m, r, M, "points", 40)
    # the same points one by one and reversed
    xy, inside, _ = _points(rng, M, 6)
    xy = xy[inside]
    if len(xy):
        z = r.sample(xy)
        m.equal(r.sample(xy[::-1])[::-1], z, "points-reversed")
        m.equal(np.array([r.sample(p[None])[0] for p in xy]), z, "points-one-by-one")
    # all cell centres return the cell values, any order
    xy = np.column_stack((r.X.ravel(), r.Y.ravel()))
    for order in (0, 1):
        want, sure = ref_points(M, xy, order)
        flat = np.asarray(M.array, float).ravel()
        ok = sure & ~np.isnan(flat)
        m.close(r.sample(xy, order=order)[ok], flat[ok], "cell-centres", rtol=0, atol=_scale(M))
        m.count("points at cell centres", ok.sum())


@workload(quick=1000, thorough=25000)
def grids(rng, m):
    r, M = _raster(rng)
    m.case(lim=M.lim, n=M.n, array=M.array)
    _sample_grid(rng, m, r, M, "grids")
    # grid and points agree (linear)
    xy, inside, _ = _points(rng, M, 6)
    xy = xy[inside]
    if len(xy) and 1 in _orders(M):
        x, y = xy[:, 0], xy[:3, 1]
        g = r.sample((x, y), grid=True, order=1)
        X, Y = np.meshgrid(x, y)
        p = r.sample(np.column_stack((X.ravel(), Y.ravel())), order=1).reshape(X.shape)
        sure = ref_grid(M, x, y, 1)[1]
        m.close(np.where(sure, g, 0), np.where(sure, p, 0), "grid-equals-points", rtol=0, atol=_scale(M), x=x, y=y)
    # cell centres, by every order
    for order in _orders(M):
        g = r.sample((r.x, r.y), grid=True, order=order)
        a = np.asarray(M.array, float)
        a = np.where(ref_grid(M, r.x, r.y, order)[1], a, g)
        m.close(g, a, f"grid-cell-centres/order{order}", rtol=0, atol=_scale(M))
        m.count("grid samples judged", a.size)


@workload(quick=600, thorough=15000)
def bounds(rng, m):
    r, M = _raster(rng)
    order = int(rng.integers(0, 2))
    xy, inside, _ = _points(rng, M, 30, outside=True)
    fill = gen.pick(rng, (np.nan, 0, -9999, 2.5, None))
    m.case(lim=M.lim, n=M.n, fill=fill, order=order)
    m.count("points outside", (~inside).sum())
    if not inside.all():
        m.raises(ValueError, lambda: r.sample(xy, order=order), "outside-raises")
    want, sure = ref_points(M, xy, order)
    if fill is not None:
        want[~inside] = fill
        sure[~inside] = True
    got = m.call(r.sample, xy, order=order, bounds_error=False, fill_value=fill)
    _judge(m, got, want, sure, M, "fill" if fill is not None else "extrapolate", xy=xy, fill=fill)
    if fill is None:
        return
    # grids
    order = gen.pick(rng, _orders(M))
    x, y = xy[:7, 0], xy[:5, 1]
    xin = (x >= min(M.lim[0])) & (x <= max(M.lim[0]))
    yin = (y >= min(M.lim[1])) & (y <= max(M.lim[1]))
    want, sure = np.zeros((5, 7)), np.ones((5, 7), bool)
    if xin.any() and yin.any():
        w, s = ref_grid(M, x[xin], y[yin], order)
        want[np.ix_(yin, xin)] = w
        sure[np.ix_(yin, xin)] = s
    want[~yin] = fill
    want[:, ~xin] = fill
    if not (xin.all() and yin.all()):
        m.raises(ValueError, lambda: r.sample((x, y), grid=True, order=order), "grid-outside-raises")
    got = m.call(r.sample, (x, y), grid=True, order=order, bounds_error=False, fill_value=fill)
    _judge(m, got, want, sure, M, "grid-fill", x=x, y=y, fill=fill)


@workload(quick=450, thorough=10000)
def history(rng, m):
    """Samples always reflect the raster as it is now."""
    r, M, args = go.new_raster(rng, lo=2)
    hist = []
    m.case(lim=M.lim, n=M.n)
    for _ in range(int(rng.integers(2, 10))):
        if rng.random() < 0.8:
            _sample_points(rng, m, r, M, "before", 6, edges=False)
        name, h, N = go.random_op(rng, m, r, M)
        hist.append(name)
        m.case(history=hist)
        if not isinstance(h, Raster):
            continue
        m.count("samples after edits")
        ok = _sample_points(rng, m, h, N, "after", 12, edges=False, history=hist)
        if rng.random() < 0.4:
            ok &= _sample_grid(rng, m, h, N, "after-grid", edges=False, history=hist)
        if h is not r and N.group is not M.group:
            ok &= _sample_points(rng, m, r, M, "source-after", 6, edges=False, history=hist)
        if not ok or max(N.n) > 50:
            return
        r, M = h, N


@workload(quick=400, thorough=8000)
def resample(rng, m):
    r, M = _raster(rng)
    n = [int(v) for v in rng.integers(1, 10, 2)]
    lim = []
    beyond = rng.random() < 0.3
    for j in range(2):
        a, b = rng.uniform(-0.3, 1.3, 2) if beyond else rng.uniform(0, 1, 2)
        if abs(a - b) < 0.05:
            a, b = 0.0, 1.0
        lim.append(tuple(M.lim[j][0] + v * M.n[j] * M.d(j) for v in (a, b)))
    T = go.Model(lim, n)
    order = gen.pick(rng, _orders(M))
    m.case(lim=M.lim, n=M.n, to=(lim, n), order=order)
    to = Grid(n, x=lim[0], y=lim[1]) if rng.random() < 0.5 else Raster(np.zeros((n[1], n[0])), x=lim[0], y=lim[1])
    x, y = T.centers(0), T.centers(1)
    xin = (x >= min(M.lim[0])) & (x <= max(M.lim[0]))
    yin = (y >= min(M.lim[1])) & (y <= max(M.lim[1]))
    # centres within rounding of the limits decide nothing
    for j, v in enumerate((x, y)):
        if (np.abs(v[:, None] - np.array(M.lim[j])) < 1e-6 * abs(M.d(j))).any():
            return
    want, sure = np.full((n[1], n[0]), np.nan), np.ones((n[1], n[0]), bool)
    if xin.any() and yin.any():
        want[np.ix_(yin, xin)], sure[np.ix_(yin, xin)] = ref_grid(M, x[xin], y[yin], order)
    if rng.random() < 0.5:
        go.touch(rng, r)
    if not (xin.all() and yin.all()):
        m.raises(ValueError, lambda: r.resample(to, order=order), "resample-outside-raises")
        go.judge_geometry(m, r, M, "failed-resample")
        m.equal(np.asarray(r.array), M.array, "failed-resample-values")
    m.call(r.resample, to, order=order, bounds_error=False)
    m.count("resamplings")
    _judge(m, r.array, want, sure, M, "resample", to=(lim, n), order=order)
    go.judge_geometry(m, r, T, "resampled")
    go.judge_geometry(m, to, T, "resample-target")
    N = go.Model(lim, n, np.array(r.array))
    _sample_points(rng, m, r, N, "after-resample", 10, edges=False)


@workload(quick=400, thorough=6000)
def resize(rng, m):
    """Resizing keeps limits, constants, ranges and (to one cell) planes."""
    n = [int(v) for v in rng.integers(2, 60, 2)]
    d = float(gen.pick(rng, (1, 0.3, 25)))
    lim = [(0, n[0] * d), (0, n[1] * d)]
    lim = [l if rng.random() < 0.5 else l[::-1] for l in lim]
    M = go.Model(lim, n)
    kind = gen.pick(rng, ("constant", "plane", "rough"))
    X, Y = np.meshgrid(M.centers(0), M.centers(1))
    c = rng.normal(size=3) * 5
    s = float(gen.pick(rng, (0.5, 1 / 3, 2, 3, 1.5, 0.7, float(rng.uniform(0.2, 3)))))
    s = max(s, 0.75 / min(n))
    if kind == "constant":
        a = np.full(X.shape, c[0] + 10)
    elif kind == "plane":
        a = c[0] + 100 + (c[1] * X + c[2] * Y) / d
    else:
        a = rng.uniform(5, 10, X.shape)
    order = int(gen.pick(rng, (0, 1, 1, 1, 2, 3)))
    m.case(n=n, d=d, lim=lim, kind=kind, c=c, scale=s, order=order)
    r = Raster(a.copy(), x=lim[0], y=lim[1])
    if rng.random() < 0.5:
        r.x, r.y, r.X
    if order == 1 and rng.random() < 0.5:
        r.resize(s)
    else:
        r.resize(s, order=order)
    m.count("resized rasters")
    out = np.asarray(r.array)
    m.must(all(abs(k - q * s) <= 0.5 + 1e-9 for k, q in zip(out.shape[::-1], n)), "resized-size", got=out.shape)
    m.close(r.xlim, lim[0], "resized-limits", rtol=0, atol=0)
    m.close(r.ylim, lim[1], "resized-limits", rtol=0, atol=0)
    m.equal(tuple(int(v) for v in r.size), out.shape[::-1], "resized-size-attribute")
    N = go.Model(lim, out.shape[::-1])
    m.close(r.x, N.centers(0), "resized-centers", rtol=1e-9, atol=1e-9)
    m.close(r.y, N.centers(1), "resized-centers", rtol=1e-9, atol=1e-9)
    if kind == "constant":
        m.close(out, np.full(out.shape, a[0, 0]), "constant-stays-constant", rtol=1e-6)
    elif order <= 1:
        m.check((out >= a.min() - 1e-6) & (out <= a.max() + 1e-6), "resized-values-in-range", got=(out.min(), out.max()), expected=(a.min(), a.max()))
    if kind == "plane":
        x, y = np.meshgrid(N.centers(0), N.centers(1))
        e = c[0] + 100 + (c[1] * x + c[2] * y) / d
        cells = max(1, 1 / s) + 0.6
        m.check(np.abs(out - e) <= (abs(c[1]) + abs(c[2])) * cells, "plane-within-a-cell", err=np.abs(out - e).max())
