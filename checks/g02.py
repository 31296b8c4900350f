import matplotlib.pyplot as plt
import numpy as np
from gmon import META, workload, gen, gridops as go
from glimpse import Grid, Raster

META["rule"] = (
    "A case is a random grid (any direction, decimal and projected coordinates) with points "
    "drawn by cell index and fraction, so the containing cell, nearest centre and nearest edge "
    "are known by construction; includes every cell centre of the grid, corners and outer edges."
)
META["require"] = {"cell centres": 5000, "points": 5000, "edge points": 500, "points outside": 500, "boxes on cell borders": 100, "boxes snapped to centers": 50}
META["assumptions"] = [
    "points within 1e-3 of a cell of an inner edge are judged only on grids with exact (dyadic) arithmetic",
]


def _grid(rng, exact=False):
    nx, ny = int(rng.integers(1, 30)), int(rng.integers(1, 30))
    if exact:
        lim = []
        for n in (nx, ny):
            a = float(rng.integers(-1000, 1000)) / 4
            d = gen.pick(rng, (0.25, 0.5, 1.0, 2.0, 4.0, 32.0))
            l = (a, a + n * d)
            lim.append(l if rng.random() < 0.5 else l[::-1])
    else:
        lim = [go.random_lim(rng, nx), go.random_lim(rng, ny)]
    M = go.Model(lim, (nx, ny))
    if rng.random() < 0.5:
        g = Grid((nx, ny), x=lim[0], y=lim[1])
    else:
        g = Raster(np.zeros((ny, nx)), x=lim[0], y=lim[1])
    return g, M


def _world(M, uv):
    return np.column_stack([M.lim[j][0] + uv[:, j] * M.d(j) for j in range(2)])


@workload(quick=500, thorough=10000)
def centers(rng, m):
    """Every cell centre, by every route, is its own cell."""
    g, M = _grid(rng)
    m.case(lim=M.lim, n=M.n)
    nx, ny = M.n
    rc = np.array([(i, j) for i in range(ny) for j in range(nx)])
    m.count("cell centres", len(rc))
    tol = np.array([M.tol(0), M.tol(1)])
    xy = m.call(g.rowcol_to_xy, rc)
    want = _world(M, rc[:, ::-1] + 0.5)
    m.check((np.abs(xy - want) <= tol).all(), "rowcol_to_xy", got=xy, want=want)
    xy = gen.pick(rng, (xy, want, np.column_stack((g.X.ravel(), g.Y.ravel()))))
    m.equal(m.call(g.xy_to_rowcol, xy, snap=True), rc, "centre-to-own-cell")
    m.equal(m.call(g.xy_to_rowcol, xy, snap=True, inbounds=False), rc, "centre-to-own-cell-anybounds")
    m.close(m.call(g.xy_to_rowcol, xy), rc, "centre-to-float-rowcol", rtol=0, atol=1e-4)
    idx = m.call(g.rowcol_to_idx, rc)
    m.equal(np.asarray(idx), np.arange(nx * ny), "rowcol_to_idx")
    m.equal(m.call(g.idx_to_rowcol, np.asarray(idx)), rc, "idx_to_rowcol")
    s = m.call(g.snap_xy, xy, centers=True)
    m.check((np.abs(s - want) <= tol).all(), "snap-keeps-centres", got=s, want=want)
    m.check(np.asarray(g.inbounds_xy(xy)).all(), "centres-inbounds")
    uv = m.call(g.xyz_to_uv, xy)
    m.close(uv, rc[:, ::-1] + 0.5, "xyz_to_uv", rtol=0, atol=1e-4)
    back = m.call(g.uv_to_xyz, rc[:, ::-1] + 0.5)
    m.check(back.shape == (len(rc), 3) and np.isnan(back[:, 2]).all(), "uv_to_xyz-z-missing")
    m.check((np.abs(back[:, :2] - want) <= tol).all(), "uv_to_xyz", got=back, want=want)


@workload(quick=600, thorough=12000)
def points(rng, m):
    exact = bool(rng.random() < 0.5)
    g, M = _grid(rng, exact)
    nx, ny = M.n
    n = 60
    cell = np.column_stack((rng.integers(-2, nx + 2, n), rng.integers(-2, ny + 2, n)))
    frac = rng.uniform(0.002, 0.998, (n, 2))
    if exact:
        frac = np.round(frac * 64) / 64
        frac[rng.random((n, 2)) < 0.3] = 0
        frac[rng.random((n, 2)) < 0.2] = 0.5
    else:
        frac[np.abs(frac - 0.5) < 0.002] = 0.4
        frac[np.abs(frac - 0.25) < 0.002] = 0.2
        frac[np.abs(frac - 0.75) < 0.002] = 0.7
    uv = cell + frac
    xy = _world(M, uv)
    m.case(lim=M.lim, n=M.n, exact=exact, uv=uv)
    # exact outer limits
    k = rng.random(n) < 0.15
    ends = np.array(M.lim)
    for j in range(2):
        e = rng.integers(0, 2, n)
        kk = k & (rng.random(n) < 0.6)
        xy[kk, j] = ends[j][e[kk]]
        uv[kk, j] = e[kk] * M.n[j]
    N = np.array(M.n)
    isin = ((uv >= 0) & (uv <= N)).all(axis=1)
    m.count("points", n)
    m.count("points outside", (~isin).sum())
    m.count("edge points", (uv == np.round(uv)).any(axis=1).sum())
    m.equal(np.asarray(m.call(g.inbounds_xy, xy)), isin, "inbounds_xy", uv=uv)
    gx, gy = m.call(g.inbounds_xy, (xy[:, 0], xy[:, 1]), grid=True)
    m.equal(np.asarray(gx), (uv[:, 0] >= 0) & (uv[:, 0] <= nx), "inbounds_xy-grid-x")
    m.equal(np.asarray(gy), (uv[:, 1] >= 0) & (uv[:, 1] <= ny), "inbounds_xy-grid-y")
    m.equal(np.asarray(m.call(g.inbounds, uv)), isin, "inbounds")
    tol = np.array([M.tol(0), M.tol(1)])
    atol = 1e-9 if exact else 1e-4
    m.close(m.call(g.xyz_to_uv, np.column_stack((xy, rng.normal(size=n)))), uv, "xyz_to_uv", rtol=0, atol=atol)
    m.close(m.call(g.uv_to_xyz, uv)[:, :2], xy, "uv_to_xyz", rtol=0, atol=tol.max())
    m.close(m.call(g.xy_to_rowcol, xy), uv[:, ::-1] - 0.5, "float-rowcol", rtol=0, atol=atol)
    # containing cell: edges go to higher indices; outer right/bottom edges to the inside
    own = np.floor(uv)
    outer = uv == N
    own_in = own - outer
    judge = np.ones(n, bool) if exact else ~((uv == np.round(uv)) & (uv > 0) & (uv < N)).any(axis=1)
    rc = np.asarray(m.call(g.xy_to_rowcol, xy, snap=True))
    m.check(np.issubdtype(rc.dtype, np.integer), "rowcol-integer")
    both = judge & isin
    m.equal(rc[both], own_in[both][:, ::-1].astype(int), "containing-cell", uv=uv[both])
    if exact:
        m.equal(rc, own_in[:, ::-1].astype(int), "containing-cell-anywhere", uv=uv)
        rc2 = np.asarray(g.xy_to_rowcol(xy, snap=True, inbounds=False))
        m.equal(rc2, own[:, ::-1].astype(int), "containing-cell-unbounded", uv=uv)
    c = m.call(g.snap_xy, xy, centers=True)
    m.close(c[both], _world(M, own_in + 0.5)[both], "snap-centre", rtol=0, atol=tol.max(), uv=uv)
    # nearest edge: halfway goes up
    e = np.floor(uv + 0.5)
    s = m.call(g.snap_xy, xy, edges=True)
    m.close(s, _world(M, e), "snap-edge", rtol=0, atol=tol.max(), uv=uv)
    b = np.floor(2 * uv + 0.5) / 2
    s = m.call(g.snap_xy, xy, centers=True, edges=True)
    m.close(s, _world(M, b), "snap-centre-or-edge", rtol=0, atol=tol.max(), uv=uv)
    m.raises(ValueError, lambda: g.snap_xy(xy), "snap-to-nothing")
    # snapping a box of whole cells
    w = [int(rng.integers(1, M.n[j] + 1)) for j in range(2)]
    o = [int(rng.integers(0, M.n[j] - w[j] + 1)) for j in range(2)]
    jit = rng.uniform(-0.3, 0.3, 2)
    size = [abs(w[j] * M.d(j)) for j in range(2)]
    ctr = np.array([M.lim[j][0] + (o[j] + w[j] / 2 + jit[j]) * M.d(j) for j in range(2)])
    lo, hi = np.array(M.lim).min(axis=1), np.array(M.lim).max(axis=1)
    inside = ((ctr - np.array(size) / 2 >= lo) & (ctr + np.array(size) / 2 <= hi)).all()
    near = (np.abs(np.concatenate((ctr - np.array(size) / 2 - lo, ctr + np.array(size) / 2 - hi))) < 1e-6 * np.array(size * 2)).any()
    if near:
        return
    if not inside:
        m.raises(IndexError, lambda: g.snap_box(ctr, size), "box-beyond-bounds")
    else:
        got = np.asarray(m.call(g.snap_box, ctr, size))
        A = _world(M, np.array([o, np.array(o) + w], dtype=float))
        want = np.concatenate((A.min(axis=0), A.max(axis=0)))
        m.close(got, want, "snap_box", rtol=0, atol=tol.max())
        # Boxes snapped to centers, or to centers or edges: each corner as a point, with the same options
        corners = np.column_stack(([ctr[0] - size[0] / 2, ctr[0] + size[0] / 2], [ctr[1] - size[1] / 2, ctr[1] + size[1] / 2]))
        cuv = (corners - np.array(M.lim)[:, 0]) / [M.d(0), M.d(1)]
        for opts, unit, off in (({"centers": True, "edges": False}, 1, 0.5), ({"centers": True, "edges": True}, 0.5, 0.0), ({"centers": True, "edges": False, "inbounds": False}, 1, 0.5)):
            k = np.floor((cuv - off) / unit + 0.5)
            if (np.abs((cuv - off) / unit + 0.5 - np.round((cuv - off) / unit + 0.5)) < 1e-6).any():
                continue
            m.count("boxes snapped to centers")
            m.close(np.asarray(m.call(g.snap_box, ctr, size, **opts)), _world(M, k * unit + off).ravel(), "snap_box-options", rtol=0, atol=tol.max(), **opts)


@workload(quick=200, thorough=4000)
def whole_boxes(rng, m):
    """Boxes of whole and half cells, up to the borders of the grid."""
    g, M = _grid(rng, True)
    N = np.array(M.n)
    o = np.array([rng.integers(0, 2 * n) for n in N]) / 2
    w = np.array([rng.integers(1, 2 * (n - v) + 1) for n, v in zip(N, o)]) / 2
    if rng.random() < 0.5:
        o = N - w
    d = np.array([M.d(0), M.d(1)])
    lo = np.array(M.lim)[:, 0] + o * d
    hi = np.array(M.lim)[:, 0] + (o + w) * d
    ctr, size = (lo + hi) / 2, np.abs(hi - lo)
    box = np.sort(np.array((lo, hi)), axis=0)
    m.case(lim=M.lim, n=M.n, box=box)
    if not np.array_equal(np.vstack((ctr - size * 0.5, ctr + size * 0.5)), box) or not ((box >= np.array(M.lim).min(axis=1)) & (box <= np.array(M.lim).max(axis=1))).all():
        return m.trivial()
    uv = (box - np.array(M.lim)[:, 0]) / d
    if not np.array_equal(uv * 2, np.round(uv * 2)):
        return m.trivial()
    m.count("boxes on cell borders")
    form = gen.pick(rng, (tuple, list, np.array))
    for centers, edges, inbounds in ((True, False, True), (True, False, False), (False, True, True), (False, True, False), (True, True, True)):
        k = 0.5 if centers and edges else 1
        off = 0.5 if centers and not edges else 0
        e = np.floor((uv - off) / k + 0.5) * k + off
        if centers and not edges and inbounds:
            e[uv == N] -= 1
        got = m.call(g.snap_box, form(ctr), form(size), centers=centers, edges=edges, inbounds=inbounds)
        m.close(np.asarray(got), _world(M, e).ravel(), "snap_box-on-borders", rtol=0, atol=max(M.tol(0), M.tol(1)), centers=centers, edges=edges, inbounds=inbounds)
    got = m.call(g.snap_box, ctr, size)
    m.close(np.asarray(got), _world(M, np.floor(uv + 0.5)).ravel(), "snap_box-default", rtol=0, atol=max(M.tol(0), M.tol(1)))


@workload(quick=200, thorough=4000)
def out_of_bounds(rng, m):
    g, M = _grid(rng, True)
    nx, ny = M.n
    m.case(lim=M.lim, n=M.n)
    for bad in ((ny, 0), (0, nx), (-1, 0), (0, -1)):
        m.raises(ValueError, lambda: g.rowcol_to_idx(np.array([bad])), "bad-rowcol", bad=bad)
    for bad in (nx * ny, -1):
        m.raises(ValueError, lambda: g.idx_to_rowcol(np.array([bad])), "bad-index", bad=bad)
    eps = np.array([M.d(0), M.d(1)]) / 8
    for e in (0, 1):
        p = np.array([[M.lim[0][e], M.lim[1][e]]])
        s = 1 if e else -1
        m.check(bool(g.inbounds_xy(p)[0]), "limit-inbounds")
        for j in range(2):
            q = p.copy()
            q[0, j] += s * eps[j]
            m.check(not g.inbounds_xy(q)[0], "beyond-limit-outside", q=q)


@workload(quick=30, thorough=300)
def plots(rng, m):
    """A plot shows each cell at its own place."""
    nx, ny = int(rng.integers(1, 30)), int(rng.integers(1, 30))
    lim = [go.random_lim(rng, nx), go.random_lim(rng, ny)]
    array = rng.normal(size=(ny, nx))
    r = Raster(array, x=lim[0], y=lim[1])
    m.case(lim=lim, n=(nx, ny))
    plt.close("all")
    other = rng.normal(size=(ny, nx)) if rng.random() < 0.5 else None
    ok, im = m.returns(lambda: r.plot(other) if other is not None else r.plot(), "plot")
    if ok:
        left, right, bottom, top = im.get_extent()
        m.equal(np.asarray(im.get_array()), array if other is None else other, "plot-values")
        m.check(im.origin == "upper", "plot-origin")
        m.close([left, right], lim[0], "plot-x", rtol=1e-12)
        m.close([top, bottom], lim[1], "plot-y", rtol=1e-12)
        m.count("plots")
        plt.xlim(0, 1)
        plt.ylim(0, 1)
        ok, _ = m.returns(r.set_plot_limits, "plot-limits")
        if ok:
            ax = plt.gca()
            m.close(ax.get_xlim(), lim[0], "plot-limits-x", rtol=1e-12)
            m.close(ax.get_ylim(), lim[1][::-1], "plot-limits-y", rtol=1e-12)
    plt.close("all")
