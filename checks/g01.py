import numpy as np
from gmon import META, workload, gen, gridops as go, scratch
from glimpse import Grid, Raster

META["rule"] = (
    "A case is a random grid or raster (ascending/descending axes, integer, decimal or "
    "projected coordinates, given as limits, vectors or matrices) taken through 1-12 random "
    "operations with caches filled at random in between; the oracle derives every geometric "
    "attribute from a model that tracks only limits and cell counts. Distinct by initial "
    "geometry and operation history."
)
META["require"] = {"geometries judged": 2000, "operations": 2000}
META["assumptions"] = ["coordinates compared to 1e-9 of the extent (plus rounding of large coordinates)"]


def _history(rng, m, g, M, steps):
    hist = []
    go.judge_geometry(m, g, M, "constructed")
    for _ in range(steps):
        go.touch(rng, g)
        name, h, N = go.random_op(rng, m, g, M)
        hist.append(name)
        m.count("operations")
        m.case(lim=M.lim, n=M.n, history=hist)
        ok = go.judge_geometry(m, h, N, name.split("(")[0].split("=")[0].split("[")[0] or "slice", history=hist)
        if N.array is not None and hasattr(h, "zlim") and "resize" not in name:
            ok &= go.judge_values(m, h, N, "after", history=hist)
        if h is not g:
            ok &= go.judge_geometry(m, g, M, "source-of-" + (name if name in ("copy", "grid") else "slice"), history=hist)
        if not ok:
            return
        if h is g or (rng.random() < 0.7 and isinstance(h, type(g))):
            g, M = h, N
        if max(M.n) > 60:
            return


@workload(quick=400, thorough=8000)
def grid_history(rng, m):
    g, M, args = go.new_grid(rng)
    m.case(args=args)
    _history(rng, m, g, M, int(rng.integers(1, 12)))


@workload(quick=700, thorough=15000)
def raster_history(rng, m):
    g, M, args = go.new_raster(rng)
    m.case(args=args)
    _history(rng, m, g, M, int(rng.integers(1, 12)))


@workload(quick=200, thorough=3000)
def rejects(rng, m):
    g, M, _ = go.new_grid(rng)
    r, MR, _ = go.new_raster(rng)
    m.case(lim=M.lim, n=M.n)
    for o, mod in ((g, M), (r, MR)):
        go.touch(rng, o)
        for bad in ((1, 1), (1, 2, 3), 5, ("a", "b")):
            for a in ("xlim", "ylim"):
                m.raises((ValueError, TypeError), lambda: setattr(o, a, bad), "bad-limits-rejected", bad=bad)
        go.judge_geometry(m, o, mod, "after-rejected-limits")
    for bad in ((0, 1), (-1, 2), (1.5, 2), (1, 2, 3), ()):
        m.raises((ValueError, TypeError), lambda: setattr(g, "size", bad), "bad-size-rejected", bad=bad)
    go.judge_geometry(m, g, M, "after-rejected-size")
    # equality is of coordinates and values, not of what broadcasts to them
    full = np.ones(tuple(int(i) for i in g.shape))
    other = full[:1] if rng.random() < 0.5 else full[:, :1]
    if other.shape != full.shape:
        a, b = (Raster(i, x=g.xlim, y=g.ylim) for i in (full, other))
        m.check(not (a == b) and not (b == a), "raster-unequal-shape", shapes=(full.shape, other.shape))
    # equality is of coordinates
    m.check(bool(g == g.copy()), "equal-to-copy")
    h = g.copy()
    h.shift(dx=abs(M.d(0)))
    m.check(not (g == h), "unequal-after-shift")
    h = g.copy()
    h.ylim = h.ylim[::-1]
    m.check(not (g == h), "unequal-after-flip")
    m.check(bool(r == r.copy()) or np.isnan(np.asarray(r.array, float)).any(), "raster-equal-to-copy")


@workload(quick=60, thorough=1000)
def grid_from_file(rng, m):
    """Grid.read describes the file (or the requested part, at the requested cell size)."""
    import os

    r, M, _ = go.new_raster(rng, lo=2, hi=14, nan=0)
    if np.asarray(r.array).dtype == np.int64:
        r.array = np.asarray(r.array).astype(float)
    path = os.path.join(scratch(), "r.tif")
    r.write(path, driver="GTiff") if rng.random() < 0.3 else r.write(path)
    m.case(lim=M.lim, n=M.n)
    g = Grid.read(path)
    go.judge_geometry(m, g, M, "read")
    bx, c0, c1 = go.crop_box(rng, M, 0)
    by, r0, r1 = go.crop_box(rng, M, 1)
    N = go.crop_model(M, (c0, c1), (r0, r1))
    g = m.call(Grid.read, path, xlim=bx, ylim=by)
    go.judge_geometry(m, g, N, "read-crop", xlim=bx, ylim=by)
    d = float(rng.uniform(0.5, 3)) * abs(M.d(0))
    if rng.random() < 0.5:
        # Cell sizes which divide the raster exactly, but for rounding
        d = abs(M.d(0)) * float(rng.choice([0.1, 0.2, 0.5, 1 / 3, 1, 1, 2, 3]))
    g = Grid.read(path, d=d, xlim=bx, ylim=by)
    o = Raster.open(path, d=d, xlim=bx, ylim=by)
    want = [int(np.ceil(abs(N.n[j] * N.d(j)) / d - 1e-6)) for j in range(2)]
    got = [int(i) for i in g.size]
    m.check(all(w <= k <= w + 1 for k, w in zip(got, want)), "read-cell-size", got=got, want=want, d=d)
    whole = [abs(N.n[j] * N.d(j)) / d for j in range(2)]
    if all(abs(w - round(w)) < 1e-9 for w in whole):
        m.check(got == [int(round(w)) for w in whole], "read-cell-size-exact", got=got, want=whole, d=d)
    N.n = got
    go.judge_geometry(m, g, N, "read-resampled")
    m.check(tuple(int(i) for i in o.size) == tuple(got), "raster-open-agrees", got=o.size, want=got)
    go.judge_geometry(m, o, N, "open-resampled")
    a = o.array
    m.check(a.shape == (got[1], got[0]), "open-array-shape", got=a.shape)
    go.judge_geometry(m, o, N, "open-resampled-read")
