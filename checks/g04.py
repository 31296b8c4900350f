import numpy as np
from gmon import META, workload, gen, gridops as go
from glimpse import Grid, Raster

META["rule"] = (
    "A case is a random raster (every cell value unique, so a value identifies its cell) cropped, "
    "sliced, cropped to data or tiled, once or in sequence; boxes are drawn from cell indices and "
    "fractions so the touched cells are known by construction. Judged: which cells survive, at "
    "which world coordinates. Distinct by geometry and operations."
)
META["require"] = {"cells retained": 20000, "boxes": 800, "boxes outside": 300, "tiles": 3000, "tilings with overlap": 200, "slices": 400}
META["assumptions"] = ["box edges within 2% of a cell of a cell edge, but not on it, are not drawn"]


def _unique(rng, lo=1, hi=14):
    """Raster of unique values and its model."""
    nx, ny = int(rng.integers(lo, hi)), int(rng.integers(lo, hi))
    lim = [go.random_lim(rng, nx), go.random_lim(rng, ny)]
    kind = gen.pick(rng, ("float", "int", "f32", "nan"))
    a = rng.permutation(nx * ny).reshape(ny, nx)
    if kind != "int":
        a = a.astype(np.float32 if kind == "f32" else float)
    if kind == "nan":
        a[rng.random(a.shape) < 0.3] = np.nan
    crs = gen.pick(rng, (None, 32606))
    x = go.as_form(rng, lim[0], nx, ny, 0)[0]
    y = go.as_form(rng, lim[1], ny, nx, 1)[0]
    r = Raster(a.copy(), x=x, y=y, crs=crs)
    return r, go.Model(lim, (nx, ny), a, crs=crs)


def _judge(m, r, N, mech, **kw):
    """Every cell of the result is the cell of the model, at its place."""
    if not m.check(np.asarray(r.array).shape == N.array.shape, mech + "-cells", got=r.array, want=N.array, **kw):
        return False
    ok = m.equal(np.asarray(r.array), N.array, mech + "-values", **kw)
    m.check(np.asarray(r.array).dtype.kind == N.array.dtype.kind, mech + "-kind", got=np.asarray(r.array).dtype, want=N.array.dtype, **kw)
    X, Y = r.X, r.Y
    m.count("cells retained", N.array.size)
    ok &= m.close(X, np.tile(N.centers(0), (N.n[1], 1)), mech + "-x", rtol=0, atol=N.tol(0) + abs(N.d(0)) * 1e-6, **kw)
    ok &= m.close(Y, np.tile(N.centers(1), (N.n[0], 1)).T, mech + "-y", rtol=0, atol=N.tol(1) + abs(N.d(1)) * 1e-6, **kw)
    for j, a in enumerate(("xlim", "ylim")):
        ok &= m.close(getattr(r, a), N.lim[j], f"{mech}-{a}", rtol=0, atol=N.tol(j) + abs(N.d(j)) * 1e-6, **kw)
    return bool(ok)


@workload(quick=900, thorough=20000)
def crop(rng, m):
    r, M = _unique(rng)
    if rng.random() < 0.5:
        go.touch(rng, r)
    bx, c0, c1 = go.crop_box(rng, M, 0)
    by, r0, r1 = go.crop_box(rng, M, 1)
    kw = {}
    if rng.random() < 0.85:
        kw["xlim"] = bx
    else:
        c0, c1 = 0, M.n[0] - 1
    if rng.random() < 0.85:
        kw["ylim"] = by
    else:
        r0, r1 = 0, M.n[1] - 1
    m.case(lim=M.lim, n=M.n, box=kw)
    m.count("boxes")
    N = go.crop_model(M, (c0, c1), (r0, r1))
    xl, yl, rows, cols = m.call(r.crop_extent, **kw)
    m.equal([int(v) for v in rows], [r0, r1], "extent-rows", box=kw)
    m.equal([int(v) for v in cols], [c0, c1], "extent-cols", box=kw)
    for j, v in enumerate((xl, yl)):
        m.close(v, N.lim[j], "extent-limits", rtol=0, atol=M.tol(j) + abs(M.d(j)) * 1e-6, box=kw)
    g = r.grid
    m.call(r.crop, **kw)
    _judge(m, r, N, "crop", box=kw)
    # the bare grid describes the same subset
    xl, yl, rows, cols = g.crop_extent(**kw)
    m.equal([[int(v) for v in rows], [int(v) for v in cols]], [[r0, r1], [c0, c1]], "grid-extent", box=kw)


@workload(quick=400, thorough=8000)
def outside(rng, m):
    """Boxes which miss the raster raise and change nothing."""
    r, M = _unique(rng)
    j = int(rng.integers(2))
    n = M.n[j]
    w = float(rng.uniform(0.1, 5))
    a = gen.pick(rng, (-w - float(rng.uniform(0.05, 3)), n + float(rng.uniform(0.05, 3))))
    box = tuple(M.lim[j][0] + v * M.d(j) for v in (a, a + w))
    if rng.random() < 0.5:
        box = box[::-1]
    kw = {"xlim" if j == 0 else "ylim": box}
    if rng.random() < 0.5:
        o = 1 - j
        kw["ylim" if j == 0 else "xlim"] = go.crop_box(rng, M, o)[0]
    m.case(lim=M.lim, n=M.n, box=kw)
    m.count("boxes outside")
    m.raises(Exception, lambda: r.crop_extent(**kw), "extent-outside-raises", box=kw)
    m.raises(Exception, lambda: r.crop(**kw), "crop-outside-raises", box=kw)
    _judge(m, r, M, "failed-crop")


@workload(quick=500, thorough=10000)
def zlimits(rng, m):
    r, M = _unique(rng)
    a = M.array
    n = a.size
    lo, hi = sorted(float(v) for v in rng.uniform(-1, n, 2))
    if rng.random() < 0.4:
        lo, hi = np.floor(lo), np.floor(hi)
    z = gen.pick(rng, ((lo, hi), [hi, lo], np.array([lo, hi])))
    m.case(lim=M.lim, n=M.n, zlim=z, dtype=a.dtype)
    with np.errstate(invalid="ignore"):
        keep = (a >= lo) & (a <= hi) | np.isnan(a.astype(float))
    if not (np.isfinite(a.astype(float)) & ~keep).any():
        m.trivial()
    r.sample(np.column_stack((r.x[:1], r.y[:1])))
    m.call(r.crop, zlim=z)
    want = a.astype(float)
    want[~keep] = np.nan
    m.equal(np.asarray(r.array).astype(float), want, "zlim-values", zlim=z)
    m.check(np.asarray(r.array).dtype == a.dtype or (~keep).any(), "zlim-dtype", dtype=r.array.dtype)
    m.count("boxes")
    # both at once
    r, M = _unique(rng)
    bx, c0, c1 = go.crop_box(rng, M, 0)
    N = go.crop_model(M, (c0, c1), (0, M.n[1] - 1))
    r.crop(xlim=bx, zlim=z)
    with np.errstate(invalid="ignore"):
        out = (N.array < lo) | (N.array > hi)
    want = N.array.astype(float)
    want[out] = np.nan
    m.equal(np.asarray(r.array).astype(float), want, "xlim-and-zlim", xlim=bx, zlim=z)


@workload(quick=700, thorough=15000)
def slices(rng, m):
    r, M = _unique(rng)
    if rng.random() < 0.5:
        go.touch(rng, r)
    hist = []
    for _ in range(int(rng.integers(1, 4))):
        i, rows = go.random_index(rng, M.n[1])
        j, cols = go.random_index(rng, M.n[0])
        if rng.random() < 0.1:
            j, cols = slice(None), list(range(M.n[0]))
            s = r[i]
        else:
            s = r[i, j]
        hist.append((i, j))
        m.count("slices")
        m.case(lim=M.lim, n=M.n, history=hist)
        # coordinates: of the selected cells; limits half a (stepped) cell beyond
        N = go.slice_model(M, rows, cols, i, j)
        ok = m.check(type(s) is Raster and s.crs == M.crs, "slice-type-crs", crs=s.crs)
        ok &= _judge(m, s, N, "slice", index=hist)
        if not ok:
            return
        r, M = s, N
    # not an index
    for bad in ("a", (0, "a"), ([0], 0), (np.array([0]), 0), (None, 0)):
        m.raises((IndexError, TypeError), lambda: r[bad], "bad-index-raises", bad=bad)


@workload(quick=500, thorough=10000)
def to_data(rng, m):
    r, M = _unique(rng)
    a = np.asarray(M.array, float).copy()
    if rng.random() < 0.7:
        a[:] = np.nan
        for _ in range(int(rng.integers(0, 4))):
            a[int(rng.integers(M.n[1])), int(rng.integers(M.n[0]))] = float(rng.normal())
    r.array = a.copy()
    M.array = a
    m.case(lim=M.lim, n=M.n, array=a)
    ok = ~np.isnan(a)
    if not ok.any():
        m.raises(ValueError, r.data_extent, "extent-of-nothing")
        m.raises(ValueError, r.crop_to_data, "crop-to-nothing")
        _judge(m, r, M, "crop-to-nothing")
        m.count("rasters without data")
        return
    rows, cols = np.flatnonzero(ok.any(axis=1)), np.flatnonzero(ok.any(axis=0))
    si, sj = r.data_extent()
    m.equal(list(range(M.n[1])[si]), list(range(rows[0], rows[-1] + 1)), "data-rows")
    m.equal(list(range(M.n[0])[sj]), list(range(cols[0], cols[-1] + 1)), "data-cols")
    N = go.crop_model(M, (cols[0], cols[-1]), (rows[0], rows[-1]))
    r.crop_to_data()
    _judge(m, r, N, "crop_to_data")
    r.crop_to_data()
    _judge(m, r, N, "crop_to_data-again")


@workload(quick=600, thorough=12000)
def tiles(rng, m):
    n = [int(gen.loguniform(rng, 1, 80)) for _ in range(2)]
    lim = [go.random_lim(rng, n[0]), go.random_lim(rng, n[1])]
    size = [int(gen.loguniform(rng, 1, 100)) for _ in range(2)]
    over = [0, 0] if rng.random() < 0.4 else [int(rng.integers(0, 6)) for _ in range(2)]
    m.case(n=n, size=size, overlap=over)
    g = Grid(n, x=lim[0], y=lim[1])
    form = gen.pick(rng, (tuple, list, np.array))
    core = m.call(g.tile_indices, size=form(size))
    ids = np.arange(n[0] * n[1]).reshape(n[1], n[0])
    hits = np.zeros(ids.shape, int)
    for i, j in core:
        hits[i, j] += 1
        m.check(ids[i, j].size > 0, "tile-not-empty", tile=(i, j))
        for s, k in ((i, n[1]), (j, n[0])):
            m.check(0 <= s.start < s.stop <= k and s.step in (None, 1), "tile-inside", tile=(i, j), n=n)
    m.count("tiles", len(core))
    m.check((hits == 1).all(), "every-cell-once", hits=hits, size=size, n=n)
    # tiles are near the target size: as many as the rounded ratio asks for, at most
    h = max(s.stop - s.start for s, _ in core)
    w = max(s.stop - s.start for _, s in core)
    for got, k, s in ((w, n[0], size[0]), (h, n[1], size[1])):
        cnt = max(int(np.round(k / s)), 1)
        m.check(got == int(np.ceil(k / cnt)), "tile-size", got=got, n=k, target=s)
    if not any(over):
        return
    m.count("tilings with overlap")
    tl = m.call(g.tile_indices, size=form(size), overlap=form(over))
    m.must(len(tl) == len(core), "same-tiles", got=len(tl), want=len(core))
    for (ci, cj), (i, j) in zip(core, tl):
        for c, s, o, k in ((ci, i, over[1], n[1]), (cj, j, over[0], n[0])):
            # each tile reaches over its neighbours by the overlap, within the grid
            ext = (c.start - s.start) + (s.stop - c.stop)
            m.check(0 <= s.start <= c.start and c.stop <= s.stop <= k, "overlapping-tile-holds-core", core=c, tile=s)
            m.check(ext <= o, "overlap-no-more-than-asked", core=c, tile=s, overlap=o)
    # consecutive tiles share the overlap
    for axis in range(2):
        t = sorted({(x[axis].start, x[axis].stop) for x in tl})
        o = over[1 - axis]
        for p, q in zip(t[:-1], t[1:]):
            want = min(o, p[1])
            m.check(p[1] - q[0] == want, "overlap-as-asked", tiles=(p, q), overlap=o)
    r = Raster(ids.astype(float), x=lim[0], y=lim[1])
    i, j = gen.pick(rng, tl)
    m.equal(np.asarray(r[i, j].array), ids[i, j].astype(float), "tile-of-raster")
