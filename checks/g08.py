import numpy as np
from gmon import META, workload, gen, gridops as go
from glimpse import Raster, helpers

META["rule"] = (
    "A case is a random grid (any size, cell size, axis directions) with a random point set, polygon set "
    "(star-shaped, overlapping, with holes, any winding, open or closed rings) or circle burned into it. "
    "The oracle bins points one at a time, tests each cell centre against each polygon by ray casting, and "
    "measures each cell's distance to the circle's centre. Non-trivial if some cell is burned."
)
META["require"] = {
    "points binned": 5000, "points on grid limits": 200, "cells inside polygons": 5000, "cells inside holes": 300,
    "cells inside circles": 3000, "cells outside circles": 3000, "circles partly outside": 30, "rows in a column stack": 100,
}
META["assumptions"] = [
    "points within 1e-6 cells of an inner cell edge and cell centres within 1e-6 cells of a polygon edge are not judged",
    "fill_circle: square cells; cells farther than half a cell (plus centre snapping) from the circle itself are judged",
]


def _means(rows, cols, v):
    bins = {}
    for i, j, val in zip(rows, cols, v):
        bins.setdefault((int(i), int(j)), []).append(np.asarray(val, dtype=float))
    return {k: np.sum(x, axis=0) / len(x) for k, x in bins.items()}


@workload(quick=700, thorough=12000)
def points(rng, m):
    r, M = _raster(rng)
    nx, ny = M.n
    n = int(gen.loguniform(rng, 1, 300))
    lim = np.array(M.lim, dtype=float)
    f = rng.uniform(-0.2, 1.2, (n, 2)) if rng.random() < 0.7 else rng.uniform(0, 1, (n, 2))
    if rng.random() < 0.4:
        # stack points on few cells
        f = f[rng.integers(0, max(1, n // 4), n)]
    edge = rng.random((n, 2))
    on = np.zeros(n, dtype=bool)
    xy = lim[:, 0] + f * (lim[:, 1] - lim[:, 0])
    if rng.random() < 0.5:
        for j in range(2):
            xy[edge[:, j] < 0.06, j] = lim[j, 0]
            xy[edge[:, j] > 0.94, j] = lim[j, 1]
    # cells by integer division in units of cells from the first limit
    d = (lim[:, 1] - lim[:, 0]) / M.n
    u = (xy - lim[:, 0]) / d
    lo, hi = lim.min(axis=1), lim.max(axis=1)
    inside = ((xy >= lo) & (xy <= hi)).all(axis=1)
    border = (xy == lo) | (xy == hi)
    amb = (np.abs(u - np.round(u)) < 1e-6) & ~border
    keep = ~amb.any(axis=1)
    xy, u, inside, border = xy[keep], u[keep], inside[keep], border[keep]
    n = len(xy)
    kind = gen.pick(rng, ("float", "int", "bool", "nan", "big"))
    v = {"float": lambda: rng.normal(size=n), "int": lambda: rng.integers(-50, 50, n), "bool": lambda: rng.random(n) < 0.5,
         "nan": lambda: np.where(rng.random(n) < 0.15, np.nan, rng.normal(size=n)), "big": lambda: 1e6 + rng.normal(size=n)}[kind]()
    m.case(lim=M.lim, n=M.n, xy=xy, values=v)
    cell = np.clip(np.floor(u).astype(int), 0, np.array(M.n) - 1)
    e = np.full((ny, nx), np.nan)
    for (i, j), val in _means(cell[inside, 1], cell[inside, 0], v[inside]).items():
        e[i, j] = val
    m.count("points binned", inside.sum())
    m.count("points on grid limits", (border.any(axis=1) & inside).sum())
    if not inside.any():
        m.trivial()
    out = m.call(r.rasterize, xy, v)
    m.must(np.shape(out) == e.shape, "grid-shape", got=np.shape(out))
    m.close(out, e, "cell-means", rtol=1e-9, atol=1e-9)
    m.equal(np.asarray(r.array), M.array, "raster-unchanged")


def _raster(rng, lo=1, hi=25, square=False):
    n = [int(v) for v in rng.integers(lo, hi, 2)]
    d0 = float(gen.pick(rng, (1, 0.5, 0.1, 3.7, 30)))
    lim = []
    for j in range(2):
        d = d0 if square or rng.random() < 0.6 else d0 * float(rng.uniform(0.3, 3))
        a = float(gen.pick(rng, (0, -3, 12.3, 5e5, 6.7e6)))
        l = (a, a + n[j] * d)
        lim.append(l if rng.random() < 0.5 else l[::-1])
    z = rng.normal(size=(n[1], n[0]))
    M = go.Model(lim, n, z)
    return Raster(z.copy(), x=lim[0], y=lim[1]), M


@workload(quick=500, thorough=8000)
def indices(rng, m):
    shape = tuple(int(v) for v in rng.integers(1, 12, 2))
    n = int(gen.loguniform(rng, 1, 200))
    rows, cols = rng.integers(0, shape[0], n), rng.integers(0, shape[1], n)
    d = int(gen.pick(rng, (0, 0, 1, 2, 3)))
    v = rng.normal(size=(n, d) if d else n)
    if rng.random() < 0.3:
        v = rng.integers(0, 9, v.shape)
    inplace = rng.random() < 0.5
    e = _means(rows, cols, v)
    m.case(shape=shape, rows=rows, cols=cols, d=d, inplace=inplace)
    m.count("points binned", n)
    args = [a if rng.random() < 0.7 else a.tolist() for a in (rows, cols, v)]
    if inplace:
        deep = d > 1 or (d == 1 and rng.random() < 0.5)
        a = rng.normal(size=shape + ((max(d, 1),) if deep else ()))
        if deep and d == 0:
            a = rng.normal(size=shape + (1,))
        expect = a.copy()
        for (i, j), val in e.items():
            expect[i, j] = val if expect.ndim == 3 else np.ravel(val)[0]
        out = helpers.rasterize_points(*args, a=a)
        m.check(out is None, "in-place-returns-none", got=out)
        m.close(a, expect, "in-place-means", rtol=1e-9, atol=1e-12)
        m.count("rows in a column stack", len(e) * (d > 1))
    else:
        idx, means = m.call(helpers.rasterize_points, *args, shape=shape)
        keys = sorted(e)
        m.equal(np.asarray(idx), np.array([i * shape[1] + j for i, j in keys]), "flat-indices-sorted-unique")
        got = np.asarray(means, dtype=float)
        m.must(got.shape[:1] == (len(keys),) and got.size == len(keys) * max(d, 1), "means-shape", got=got.shape)
        m.close(got.reshape(len(keys), -1), np.array([np.ravel(e[k]) for k in keys]), "means", rtol=1e-9, atol=1e-12)
        m.count("rows in a column stack", len(keys) * (d > 1))


def _star(rng, size):
    """A simple (star-shaped) polygon, in cell units."""
    k = int(rng.integers(3, 12))
    a = np.sort(rng.uniform(0, 2 * np.pi, k))
    while np.max(np.diff(np.append(a, a[0] + 2 * np.pi))) > 3.0:
        a = np.sort(rng.uniform(0, 2 * np.pi, k))
        if k == 3 and rng.random() < 0.1:
            a = np.arange(3) * 2 * np.pi / 3
    c = rng.uniform(-0.1, 1.1, 2) * size
    r = gen.loguniform(rng, 0.05, 0.8) * max(size) * rng.uniform(0.4, 1, k)
    p = c + np.column_stack((np.cos(a), np.sin(a))) * r[:, None]
    if rng.random() < 0.2:
        # axis-aligned box
        h = rng.uniform(0.05, 0.5, 2) * size
        p = c + np.array([(-1, -1), (1, -1), (1, 1), (-1, 1)]) * h
    if rng.random() < 0.5:
        p = p[::-1]
    if rng.random() < 0.5:
        p = np.vstack((p, p[:1]))
    return p


def _inside(p, q):
    """(inside, distance to the boundary) of points q."""
    if np.any(p[0] != p[-1]):
        p = np.vstack((p, p[:1]))
    c = np.zeros(len(q), dtype=bool)
    dist = np.full(len(q), np.inf)
    for (x0, y0), (x1, y1) in zip(p[:-1], p[1:]):
        t = (q[:, 1] >= y0) != (q[:, 1] >= y1)
        if y1 != y0:
            c ^= t & (q[:, 0] < x0 + (q[:, 1] - y0) * (x1 - x0) / (y1 - y0))
        e = np.array([x1 - x0, y1 - y0])
        L = e @ e
        s = np.clip(((q - (x0, y0)) @ e) / L, 0, 1) if L else np.zeros(len(q))
        dist = np.minimum(dist, np.hypot(*(q - (x0, y0) - s[:, None] * e).T))
    return c, dist


@workload(quick=500, thorough=8000)
def polygons(rng, m):
    r, M = _raster(rng, 1, 40)
    nx, ny = M.n
    P = [_star(rng, np.array(M.n)) for _ in range(int(rng.integers(1, 4)))]
    H = [_star(rng, np.array(M.n)) for _ in range(int(rng.integers(0, 3)))]
    I, J = np.mgrid[0:ny, 0:nx]
    q = np.column_stack((J.ravel() + 0.5, I.ravel() + 0.5))
    inp, inh = np.zeros(len(q), bool), np.zeros(len(q), bool)
    safe = np.ones(len(q), bool)
    for L, acc in ((P, inp), (H, inh)):
        for p in L:
            c, dist = _inside(p, q)
            acc |= c
            safe &= dist > 1e-6
    e = (inp & ~inh).reshape(ny, nx)
    safe = safe.reshape(ny, nx)
    m.count("cells inside polygons", inp.sum())
    m.count("cells inside holes", (inp & inh).sum())
    if not inp.any():
        m.trivial()
    lim = np.array(M.lim)
    d = (lim[:, 1] - lim[:, 0]) / M.n
    direct = rng.random() < 0.3
    m.case(lim=M.lim, n=M.n, polygons=P, holes=H, direct=direct)
    form = gen.pick(rng, (np.asarray, lambda p: [tuple(v) for v in p.tolist()])) if direct else np.asarray
    if direct:
        args, kw = ([form(p) for p in P],), {"size": gen.pick(rng, (tuple, list, np.array))(M.n)}
        fn = helpers.polygons_to_mask
        H2 = [form(p) for p in H]
    else:
        args, kw = ([lim[:, 0] + p * d for p in P],), {}
        fn = r.rasterize_polygons
        H2 = [lim[:, 0] + p * d for p in H]
    if H2 or rng.random() < 0.3:
        kw["holes"] = H2
    out = np.asarray(m.call(fn, *args, **kw))
    m.must(out.shape == (ny, nx) and out.dtype == bool, "boolean-grid", got=(out.shape, out.dtype))
    if not direct and np.abs(lim).max() > 1e5:
        # precision of the cell coordinates
        pass
    m.equal(out[safe], e[safe], "cells-with-centre-inside", missing=np.argwhere(safe & e & ~out)[:5], extra=np.argwhere(safe & ~e & out)[:5])
    m.equal(np.asarray(r.array), M.array, "raster-unchanged")


@workload(quick=600, thorough=9000)
def circle(rng, m):
    r, M = _raster(rng, 1, 45, square=True)
    nx, ny = M.n
    lim = np.array(M.lim)
    d = (lim[:, 1] - lim[:, 0]) / M.n
    w = abs(d[0])
    exact = rng.random() < 0.5
    if exact:
        # on a cell centre, whole number of cells
        ci = np.array([int(rng.integers(-2, nx + 2)), int(rng.integers(-2, ny + 2))])
        if rng.random() < 0.6:
            ci = np.clip(ci, 0, np.array(M.n) - 1)
        c = ci + 0.5
        k = float(rng.integers(0, max(M.n) // 2 + 3))
    else:
        c = rng.uniform(-0.1, 1.1, 2) * M.n
        k = float(rng.uniform(0, max(M.n) * 0.7))
    center = lim[:, 0] + c * d
    value = gen.pick(rng, (None, 0.0, 7.5, -1, 1e9))
    dtype = gen.pick(rng, (float, float, np.float32, int))
    if dtype is int:
        value = int(rng.integers(100, 200))
        M.array = rng.integers(0, 50, M.array.shape)
    else:
        M.array = M.array.astype(dtype)
    r = Raster(M.array.copy(), x=M.lim[0], y=M.lim[1])
    if rng.random() < 0.3 and dtype is not int and min(M.n) > 2:
        r.sample(np.column_stack([np.mean(M.lim[0]), np.mean(M.lim[1])]))
    m.case(lim=M.lim, n=M.n, center=center, radius=k * w, value=value, exact=exact)
    arg = gen.pick(rng, (tuple, list, np.array))(center if rng.random() < 0.8 else np.append(center, 5.0))
    kw = {} if value is None else {"value": value}
    m.call(r.fill_circle, arg, k * w, **kw)
    v = np.nan if value is None else value
    out = np.asarray(r.array)
    m.must(out.shape == M.array.shape, "grid-shape", got=out.shape)
    I, J = np.mgrid[0:ny, 0:nx]
    if exact:
        dist = np.hypot(J - ci[0], I - ci[1])
        inner, outer = dist < k - 0.5, dist > k + 0.5
        if k == 0:
            inner = dist == 0
        if k == 1:
            # the smallest circle is drawn as a square
            outer = dist > 1.5
    else:
        dist = np.hypot(J + 0.5 - c[0], I + 0.5 - c[1])
        inner, outer = dist < k - 1.75, dist > k + 1.75
    full = np.full(out.shape, v, dtype=float)
    is_v = np.isnan(out) if np.isnan(v) else out == np.asarray(v).astype(out.dtype)
    m.check(is_v[inner].all(), "cells-inside-are-filled", where=np.argwhere(inner & ~is_v)[:5], k=k)
    m.equal(out[outer], M.array[outer], "cells-outside-untouched", where=np.argwhere(outer & is_v)[:5], k=k)
    other = ~is_v
    m.equal(out[other], M.array[other], "only-the-fill-value-written")
    m.count("cells inside circles", inner.sum())
    m.count("cells outside circles", outer.sum())
    partly = inner.any() and ((c - k < 0).any() or (c + k > M.n).any())
    m.count("circles partly outside", partly)
    if not inner.any():
        m.trivial()
    if exact and (0 <= ci).all() and (ci < M.n).all():
        # symmetric about the centre cell wherever both cells are on the grid
        for S in (lambda i, j: (2 * ci[1] - i, j), lambda i, j: (i, 2 * ci[0] - j), lambda i, j: (ci[1] + j - ci[0], ci[0] + i - ci[1])):
            i2, j2 = S(I, J)
            ok = (i2 >= 0) & (i2 < ny) & (j2 >= 0) & (j2 < nx)
            a, b = is_v[I[ok], J[ok]], is_v[i2[ok], j2[ok]]
            m.equal(a, b, "symmetric-fill")
    if dtype is float and min(M.n) > 2 and np.isfinite(v):
        p = lim[:, 0] + (np.array([J[is_v], I[is_v]]).T[:5] + 0.5) * d
        if len(p):
            m.close(r.sample(p, order=0), out[is_v][:5], "sampled-after-fill", rtol=1e-9)
