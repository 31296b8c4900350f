"""Reference model of grids and rasters, and random operations applied to both.

The model holds limits, cell counts and (for rasters) values; everything else is
derived from these. Operations are drawn with the expected outcome known by
construction (crop boxes from cell indices, slices from Python ranges, ...).
"""
import datetime

import numpy as np

from . import gen
from glimpse import Grid, Raster


class Model:
    def __init__(self, lim, n, array=None, group=None, crs=None, dt=None):
        self.lim = [tuple(float(v) for v in lim[0]), tuple(float(v) for v in lim[1])]
        self.n = [int(n[0]), int(n[1])]
        self.array = None if array is None else np.array(array)
        self.group = object() if group is None else group
        self.crs = crs
        self.dt = dt

    def copy(self, group=None):
        return Model(self.lim, self.n, self.array, group, self.crs, self.dt)

    def d(self, j):
        return (self.lim[j][1] - self.lim[j][0]) / self.n[j]

    def centers(self, j):
        return self.lim[j][0] + self.d(j) * (np.arange(self.n[j]) + 0.5)

    def tol(self, j):
        a, b = self.lim[j]
        return 1e-9 * abs(b - a) + 4e-15 * max(abs(a), abs(b)) * 10


def random_lim(rng, n):
    """Limits of an axis with n cells."""
    kind = gen.pick(rng, ("unit", "int", "float", "utm", "neg"))
    if kind == "unit":
        lim = (0, n)
    elif kind == "int":
        a = int(rng.integers(-100, 100))
        lim = (a, a + n * int(rng.integers(1, 5)))
    elif kind == "float":
        a = float(rng.uniform(-10, 10))
        lim = (a, a + n * gen.pick(rng, (0.1, 0.3, 1 / 3, 0.7, float(rng.uniform(0.01, 5)))))
    elif kind == "utm":
        a = float(rng.uniform(4e5, 7e6))
        lim = (a, a + n * gen.pick(rng, (0.5, 1.1, 2.5, 15.0, 30.0, float(rng.uniform(0.5, 90)))))
    else:
        lim = (-n / 2, n / 2)
    if rng.random() < 0.5:
        lim = lim[::-1]
    return lim


def as_form(rng, lim, n, other_n, dim):
    """Coordinates as limits, vector or matrix; returns (value, form)."""
    lim = tuple(lim)
    c = lim[0] + (lim[1] - lim[0]) / n * (np.arange(n) + 0.5)
    forms = ["tuple", "list", "array"]
    if n > 2:
        forms += ["vector", "vector", "veclist"]
    if n > 1:
        forms += ["matrix"]
    f = gen.pick(rng, forms)
    if f == "tuple":
        return lim, f
    if f == "list":
        return list(lim), f
    if f == "array":
        return np.array(lim), f
    if f == "vector":
        return c, f
    if f == "veclist":
        return list(c), f
    return (np.tile(c, (other_n, 1)) if dim == 0 else np.tile(c, (other_n, 1)).T.copy()), f


def new_grid(rng, lo=1, hi=12):
    nx, ny = int(rng.integers(lo, hi)), int(rng.integers(lo, hi))
    lim = [random_lim(rng, nx), random_lim(rng, ny)]
    size = gen.pick(rng, ((nx, ny), [nx, ny], np.array([nx, ny])))
    crs = gen.pick(rng, (None, 32606))
    kw = {}
    if rng.random() < 0.1:
        lim = [(0, nx), (0, ny)]
    else:
        kw["x"], _ = as_form(rng, lim[0], nx, ny, 0)
        kw["y"], _ = as_form(rng, lim[1], ny, nx, 1)
    g = Grid(size, crs=crs, **kw)
    return g, Model(lim, (nx, ny), crs=crs), (size, kw)


def random_array(rng, ny, nx, nan=0.3):
    kind = gen.pick(rng, ("float", "float", "int", "f32", "const"))
    if kind == "int":
        return rng.integers(-50, 50, (ny, nx))
    a = rng.normal(size=(ny, nx)) * 10
    if kind == "const":
        a[:] = float(rng.normal())
    if rng.random() < nan:
        a[rng.random((ny, nx)) < 0.15] = np.nan
    if kind == "f32":
        a = a.astype(np.float32)
    return a


def new_raster(rng, lo=1, hi=12, nan=0.3):
    nx, ny = int(rng.integers(lo, hi)), int(rng.integers(lo, hi))
    lim = [random_lim(rng, nx), random_lim(rng, ny)]
    a = random_array(rng, ny, nx, nan)
    kw = {}
    if rng.random() < 0.1:
        lim = [(0, nx), (0, ny)]
    else:
        kw["x"], _ = as_form(rng, lim[0], nx, ny, 0)
        kw["y"], _ = as_form(rng, lim[1], ny, nx, 1)
    crs = gen.pick(rng, (None, 32606))
    dt = gen.pick(rng, (None, datetime.datetime(2014, 5, 6, 7)))
    arg = a if rng.random() < 0.8 else a.tolist()
    r = Raster(arg, crs=crs, datetime=dt, **kw)
    return r, Model(lim, (nx, ny), np.array(arg), crs=crs, dt=dt), (arg, kw)


def judge_geometry(m, g, M, mech, **detail):
    """All public geometry of g follows from the model's limits and size."""
    det = dict(lim=M.lim, n=M.n, **detail)
    n = np.array(M.n)
    if not m.check(tuple(int(i) for i in g.size) == tuple(M.n), mech + "/size", got=g.size, **det):
        return False
    ok = m.check(tuple(int(i) for i in g.shape[:2]) == (M.n[1], M.n[0]), mech + "/shape", got=g.shape, **det)
    t = max(M.tol(0), M.tol(1))
    lim = np.array(M.lim)
    for j, (name, X) in enumerate((("x", "X"), ("y", "Y"))):
        c = M.centers(j)
        ok &= m.close(getattr(g, name + "lim"), M.lim[j], f"{mech}/{name}lim", rtol=0, atol=M.tol(j), **det)
        ok &= m.close(getattr(g, name), c, f"{mech}/{name}", rtol=0, atol=M.tol(j), **det)
        full = np.tile(c, (M.n[1], 1)) if j == 0 else np.tile(c, (M.n[0], 1)).T
        ok &= m.close(getattr(g, X), full, f"{mech}/{X}", rtol=0, atol=M.tol(j), **det)
    ok &= m.close(g.d, [M.d(0), M.d(1)], mech + "/d", rtol=1e-9, atol=t / n.min(), **det)
    ok &= m.close(g.min, lim.min(axis=1), mech + "/min", rtol=0, atol=t, **det)
    ok &= m.close(g.max, lim.max(axis=1), mech + "/max", rtol=0, atol=t, **det)
    ok &= m.close(g.box2d, np.concatenate((lim.min(axis=1), lim.max(axis=1))), mech + "/box2d", rtol=0, atol=t, **det)
    m.count("geometries judged")
    return bool(ok)


def judge_values(m, g, M, mech, **detail):
    ok = m.equal(np.asarray(g.array), M.array, mech + "/values", **detail)
    if np.isfinite(M.array.astype(float)).any():
        z = [np.nanmin(M.array), np.nanmax(M.array)]
        ok &= m.close(g.zlim, z, mech + "/zlim", rtol=0, atol=0, **detail)
        lim = np.array(M.lim)
        t = max(M.tol(0), M.tol(1))
        want = [lim[0].min(), lim[1].min(), z[0], lim[0].max(), lim[1].max(), z[1]]
        ok &= m.close(g.box3d, want, mech + "/box3d", rtol=0, atol=t, **detail)
    return bool(ok)


def crop_box(rng, M, j):
    """A crop interval along axis j and the cells it touches (first, last)."""
    n = M.n[j]
    a, b = sorted(float(v) for v in rng.uniform(-1, n + 1, 2))
    if rng.random() < 0.6:
        a = float(np.round(a))
    if rng.random() < 0.6:
        b = float(np.round(b))
    for v in (a, b):
        if abs(v - round(v)) < 0.02 and v != round(v):
            a, b = 0.0, float(n)
    ca, cb = max(a, 0.0), min(b, float(n))
    if cb - ca < 0.02:
        a, b = 0.0, float(n)
        ca, cb = a, b
    first, last = int(np.floor(ca)), int(np.ceil(cb)) - 1
    lo, hi = M.lim[j][0] + a * M.d(j), M.lim[j][0] + b * M.d(j)
    box = (lo, hi)
    if rng.random() < 0.5:
        box = box[::-1]
    return gen.pick(rng, (tuple, list, np.array))(box), first, last


def z_limits(rng):
    """A pair of values in either order."""
    return gen.pick(rng, (tuple, list, np.array))([float(v) for v in rng.normal(size=2) * 15])


def _zcrop(a, zlim):
    """Values with those outside of limits missing."""
    with np.errstate(invalid="ignore"):
        out = (a < min(zlim)) | (a > max(zlim))
    if out.any():
        a = a.astype(a.dtype if a.dtype.kind == "f" else float)
        a[out] = np.nan
    return a


def crop_model(M, cols, rows, group=None):
    """Model restricted to inclusive index ranges."""
    c0, c1 = cols
    r0, r1 = rows
    lim = [
        (M.lim[0][0] + c0 * M.d(0), M.lim[0][0] + (c1 + 1) * M.d(0)),
        (M.lim[1][0] + r0 * M.d(1), M.lim[1][0] + (r1 + 1) * M.d(1)),
    ]
    a = None if M.array is None else M.array[r0 : r1 + 1, c0 : c1 + 1]
    return Model(lim, (c1 - c0 + 1, r1 - r0 + 1), a, group or M.group, M.crs, M.dt)


def random_index(rng, n):
    """A non-empty int or slice index of an axis with n cells, and its indices."""
    for _ in range(30):
        if rng.random() < 0.25:
            i = int(rng.integers(-n, n))
            return i, [range(n)[i]]
        s = [None, None, None]
        if rng.random() < 0.7:
            s[0] = int(rng.integers(-n - 1, n + 1))
        if rng.random() < 0.7:
            s[1] = int(rng.integers(-n - 1, n + 2))
        if rng.random() < 0.35:
            s[2] = gen.pick(rng, (1, 2, 3, -1, -2))
        idx = list(range(n)[slice(*s)])
        if idx:
            return slice(*s), idx
    return slice(None), list(range(n))


def slice_model(M, rows, cols, isl, jsl, group=None):
    lim = []
    for j, (idx, sl) in enumerate(((cols, jsl), (rows, isl))):
        step = sl.step or 1 if isinstance(sl, slice) else 1
        c = M.centers(j)[idx]
        d = M.d(j) * step
        lim.append((c[0] - d / 2, c[-1] + d / 2))
    return Model(lim, (len(cols), len(rows)), M.array[np.ix_(rows, cols)], group or M.group, M.crs, M.dt)


def touch(rng, g):
    """Fill some of the caches."""
    for a in ("x", "y", "X", "Y"):
        if rng.random() < 0.5:
            getattr(g, a)
    if isinstance(g, Raster) and rng.random() < 0.5 and min(g.shape[:2]) > 0:
        g.sample(np.column_stack((g.x[:1], g.y[:1])))


def random_op(rng, m, g, M):
    """Apply one operation to g; returns (name, object, model) of the result.

    The result is g itself for operations in place. The model of g is replaced.
    """
    raster = isinstance(g, Raster)
    names = ["xlim", "ylim", "shift", "resize", "copy"]
    names += (
        ["dz", "crop", "zcrop", "slice", "slice", "array", "array-shape", "grid", "resample", "data", "circle"]
        if raster
        else ["size", "size1"]
    )
    name = gen.pick(rng, names)
    N = M.copy(M.group)
    if name in ("xlim", "ylim"):
        j = 0 if name == "xlim" else 1
        lim = random_lim(rng, M.n[j])
        if rng.random() < 0.3:
            lim = tuple(M.lim[j])[::-1]
        v = gen.pick(rng, (tuple, list, np.array))(lim)
        before = np.array(v)
        setattr(g, name, v)
        m.equal(np.array(v), before, "argument-unchanged")
        N.lim[j] = tuple(float(x) for x in lim)
        return name, g, N
    if name == "shift":
        dx = gen.pick(rng, (None, 0, 1, -3, 0.5, float(rng.normal() * 10)))
        dy = gen.pick(rng, (None, 0, 2, -1, 0.25, float(rng.normal() * 10)))
        g.shift(dx=dx, dy=dy)
        for j, s in enumerate((dx, dy)):
            N.lim[j] = tuple(v + (s or 0) for v in N.lim[j])
        return f"shift({dx},{dy})", g, N
    if name == "dz":
        dz = gen.pick(rng, (1, -2, 0.5, float(rng.normal())))
        dy = gen.pick(rng, (None, 1.5))
        g.shift(dy=dy, dz=dz)
        N.array = M.array + dz
        N.group = object()
        N.lim[1] = tuple(v + (dy or 0) for v in N.lim[1])
        return f"shift(None,{dy},{dz})", g, N
    if name == "resize":
        s = float(rng.uniform(0.4, 2.2))
        if min(M.n) * s < 0.6:
            s = 1.7
        g.resize(s)
        got = [int(i) for i in g.size]
        m.check(all(abs(k - n * s) <= 0.5 + 1e-9 for k, n in zip(got, M.n)), "resize-count", got=got, n=M.n, scale=s)
        N.n = got
        if raster:
            N.array = np.array(g.array)
            N.group = object()
        return f"resize({s})", g, N
    if name == "copy":
        N.group = object()
        return name, g.copy(), N
    if name == "grid":
        return name, g.grid, Model(M.lim, M.n, crs=M.crs)
    if name in ("size", "size1"):
        n = [int(i) for i in rng.integers(1, 12, 2)]
        if name == "size1":
            n[1] = n[0]
            g.size = n[0]
        else:
            g.size = gen.pick(rng, (tuple, list, np.array))(n)
        N.n = n
        return f"size={n}", g, N
    if name == "crop":
        bx, c0, c1 = crop_box(rng, M, 0)
        by, r0, r1 = crop_box(rng, M, 1)
        kw = {}
        if rng.random() < 0.8:
            kw["xlim"] = bx
        else:
            c0, c1 = 0, M.n[0] - 1
        if rng.random() < 0.8:
            kw["ylim"] = by
        else:
            r0, r1 = 0, M.n[1] - 1
        N = crop_model(M, (c0, c1), (r0, r1))
        if kw and rng.random() < 0.2:
            kw["zlim"] = z_limits(rng)
            N.array = _zcrop(N.array, kw["zlim"])
        m.call(g.crop, **kw)
        return f"crop({kw})", g, N
    if name == "zcrop":
        zlim = z_limits(rng)
        m.call(g.crop, zlim=zlim)
        N.array = _zcrop(M.array, zlim)
        return f"crop(zlim={zlim})", g, N
    if name == "slice":
        i, rows = random_index(rng, M.n[1])
        j, cols = random_index(rng, M.n[0])
        if rng.random() < 0.15:
            j, cols = slice(None), list(range(M.n[0]))
            out = g[i]
        else:
            out = g[i, j]
        return f"[{i},{j}]", out, slice_model(M, rows, cols, i, j)
    if name == "array":
        a = random_array(rng, M.n[1], M.n[0])
        g.array = a
        N.array, N.group = np.array(a), object()
        return name, g, N
    if name == "array-shape":
        n = [int(v) for v in rng.integers(1, 12, 2)]
        a = random_array(rng, n[1], n[0])
        g.array = a
        N.array, N.n, N.group = np.array(a), n, object()
        return f"array{n}", g, N
    if name == "resample":
        if min(M.n) < 2:
            return "none", g, N
        lim = []
        for j in range(2):
            a, b = rng.uniform(0, 1, 2)
            if abs(a - b) < 0.1:
                a, b = 0.1, 0.9
            lim.append(tuple(M.lim[j][0] + v * (M.lim[j][1] - M.lim[j][0]) for v in (a, b)))
        n = [int(v) for v in rng.integers(1, 12, 2)]
        to = Grid(n, x=lim[0], y=lim[1])
        m.call(g.resample, to)
        T = Model(lim, n)
        judge_geometry(m, to, T, "resample-target")
        N = Model(lim, n, np.array(g.array), crs=M.crs, dt=M.dt)
        m.check(N.array.shape == (n[1], n[0]), "resampled-shape", got=N.array.shape, n=n)
        return "resample", g, N
    if name == "data":
        if np.isnan(M.array.astype(float)).all():
            m.raises(ValueError, g.crop_to_data, "no-data-raises")
            return "crop_to_data!", g, N
        ok = ~np.isnan(M.array.astype(float))
        rows, cols = np.flatnonzero(ok.any(axis=1)), np.flatnonzero(ok.any(axis=0))
        g.crop_to_data()
        return "crop_to_data", g, crop_model(M, (cols[0], cols[-1]), (rows[0], rows[-1]))
    if name == "circle":
        c = [M.lim[j][0] + float(rng.uniform(-0.2, 1.2)) * (M.lim[j][1] - M.lim[j][0]) for j in range(2)]
        r = float(rng.uniform(0.5, 4)) * abs(M.d(0))
        v = int(rng.integers(-5, 5))
        m.call(g.fill_circle, c, r, v)
        N.array = np.array(g.array)
        m.check(N.array.shape == M.array.shape, "circle-shape")
        changed = ~((N.array == M.array) | (np.isnan(N.array.astype(float)) & np.isnan(M.array.astype(float))))
        m.check((N.array[changed] == v).all(), "circle-value", old=M.array, new=N.array, v=v)
        return f"fill_circle({c},{r},{v})", g, N
    raise AssertionError(name)
