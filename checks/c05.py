import time
import numpy as np
from gmon import META, workload, gen
from gmon.refcam import RefCam
from glimpse import Camera, Raster, helpers

META["rule"] = (
    "A case is a point set (inside, outside, on the frame borders, stacked on one pixel) with "
    "scalar or vector values rasterized into a random camera, or a random elevation grid "
    "with values and mask projected into a camera above it under random tilings. The oracle "
    "bins points one at a time in plain Python. Non-trivial if some point is in frame."
)
META["require"] = {"points binned": 2000, "points on right/bottom edge": 50, "pixels of projected surfaces": 2000, "tiles": 200, "densified surfaces": 1, "delayed tiles": 40, "pixels of several tiles": 500, "rescaled cells": 2000, "scales beyond the limits": 20, "scales within the limits": 20, "masked surfaces of other elevations": 20, "pixels touched at their boundaries": 500}
META["assumptions"] = [
    "points within 1e-6 px of a pixel boundary are not judged for projected surfaces",
    "rescaled surfaces are judged to within one cell and one pixel",
]


@workload(quick=700, thorough=15000)
def points(rng, m):
    sz = gen.imgsz(rng, 1, 40)
    cam = Camera(imgsz=sz, f=10)
    n = int(rng.integers(1, 200))
    uv = np.column_stack((rng.uniform(-0.3, 1.3, n) * sz[0], rng.uniform(-0.3, 1.3, n) * sz[1]))
    if rng.random() < 0.5:
        for j in range(2):
            b = rng.random(n)
            uv[b < 0.1, j] = 0
            uv[(b > 0.1) & (b < 0.2), j] = sz[j]
            k = (b > 0.2) & (b < 0.4)
            uv[k, j] = np.round(uv[k, j])
    if rng.random() < 0.2:
        uv[rng.random(n) < 0.2] = np.nan
    kind = gen.pick(rng, ("float", "int", "vector", "column", "bool", "nan"))
    d = 1
    if kind == "vector":
        d = int(rng.integers(2, 5))
        v = rng.normal(size=(n, d))
    elif kind == "column":
        v = rng.normal(size=(n, 1))
    elif kind == "int":
        v = rng.integers(-100, 100, n)
    elif kind == "bool":
        v = rng.random(n) < 0.5
    else:
        v = rng.normal(size=n)
        if kind == "nan":
            v[rng.random(n) < 0.1] = np.nan
    m.case(imgsz=sz, uv=uv, values=v, kind=kind)
    bins = {}
    edge = 0
    for (a, b), val in zip(uv, v.reshape(n, -1).astype(float)):
        if not (0 <= a <= sz[0] and 0 <= b <= sz[1]):
            continue
        i, j = min(int(b), sz[1] - 1), min(int(a), sz[0] - 1)
        edge += a == sz[0] or b == sz[1]
        bins.setdefault((i, j), []).append(val)
    e = np.full((sz[1], sz[0], d), np.nan)
    for ij, vals in bins.items():
        e[ij] = np.sum(vals, axis=0) / len(vals)
        m.count("points binned", len(vals))
    m.count("points on right/bottom edge", edge)
    if not bins:
        m.trivial()
    out = np.asarray(m.call(cam.rasterize, uv, v))
    m.must(out.shape[:2] == (sz[1], sz[0]) and out.size == e.size, "image-shape", shape=out.shape)
    m.close(out.reshape(e.shape), e, "pixel-means", rtol=1e-9, atol=1e-12)


def _scene(rng, gentle=True):
    """A terrain and a camera that sees (part of) it from above, obliquely or straight."""
    ny, nx = int(rng.integers(3, 40)), int(rng.integers(3, 40))
    d = gen.loguniform(rng, 0.5, 30)
    x0, y0 = (0, 0) if rng.random() < 0.5 else (5e5, 6.5e6)
    xlim = [x0 - nx * d / 2, x0 + nx * d / 2]
    ylim = [y0 + ny * d / 2, y0 - ny * d / 2]
    if rng.random() < 0.3:
        xlim = xlim[::-1]
    if rng.random() < 0.3:
        ylim = ylim[::-1]
    z = rng.uniform(-1, 1, (ny, nx)) * d * float(rng.uniform(0, 2))
    h = d * max(nx, ny) * float(rng.uniform(0.3, 3))
    pitch = float(rng.uniform(-90, -35))
    yaw = float(rng.uniform(0, 360))
    back = h / np.tan(np.radians(-pitch)) if pitch > -89 else 0
    pos = (
        x0 - back * np.sin(np.radians(yaw)),
        y0 - back * np.cos(np.radians(yaw)),
        h + 3 * d,
    )
    sz = gen.imgsz(rng, 4, 60)
    dist = np.hypot(h, back)
    f = max(sz) * dist / (d * max(nx, ny)) * float(rng.uniform(0.4, 3))
    k, p, _ = gen.distortion(rng, 0.3)
    if rng.random() < 0.5:
        k, p = (0,) * 6, (0, 0)
    corr = bool(rng.random() < 0.2)
    args = dict(imgsz=sz, f=(f, f * float(rng.uniform(0.9, 1.1))), xyz=pos, viewdir=(yaw, pitch, float(rng.uniform(-20, 20))), k=k, p=p, correction=corr)
    return z, xlim, ylim, args


def _centers(lim, n):
    d = (lim[1] - lim[0]) / n
    return lim[0] + d * (np.arange(n) + 0.5)


@workload(quick=300, thorough=6000)
def surface(rng, m):
    z, xlim, ylim, args = _scene(rng)
    ny, nx = z.shape
    if rng.random() < 0.4:
        z[rng.random(z.shape) < 0.2] = np.nan
    mask = None
    if rng.random() < 0.4:
        mask = rng.random(z.shape) < 0.6
        if rng.random() < 0.5:
            mask &= ~np.isnan(z)
        if rng.random() < 0.4:
            mask[: rng.integers(0, ny + 1), : rng.integers(0, nx + 1)] = False
    if rng.random() < 0.2:
        z[rng.integers(0, ny) :, rng.integers(0, nx) :] = np.nan
    bands = int(rng.integers(0, 4))
    values = None
    if bands == 1 and rng.random() < 0.5:
        values = rng.normal(size=z.shape)
    elif bands:
        values = rng.normal(size=z.shape + (bands,))
    depth = bool(bands == 0 or rng.random() < 0.5)
    tile = (256, 256) if rng.random() < 0.3 else (int(rng.integers(1, 25)), int(rng.integers(1, 25)))
    kw = dict(tile_size=tile)
    overlap = (1, 1)
    if rng.random() < 0.5:
        overlap = tuple(int(i) for i in rng.integers(0, 3, 2))
        overlap = tuple(min(o, max(1, t // 2)) for o, t in zip(overlap, tile))
        kw["tile_overlap"] = overlap
    m.case(args=args, shape=z.shape, bands=bands, depth=depth, xlim=xlim, ylim=ylim, **kw)
    if rng.random() < 0.05:
        kw["parallel"] = 2
        m.count("parallel runs")
    cam = Camera(**args)
    ref = RefCam.of(cam)
    dem = Raster(z.copy(), x=tuple(xlim), y=tuple(ylim))
    out = m.call(cam.project_dem, dem, values=values, mask=mask, return_depth=depth, **kw)
    m.equal(dem.array, z, "dem-unchanged")
    nb = bands + depth
    sz = args["imgsz"]
    m.must(out.shape == (sz[1], sz[0], nb), "image-shape", shape=out.shape)
    X, Y = np.meshgrid(_centers(xlim, nx), _centers(ylim, ny))
    sel = (~np.isnan(z)) if mask is None else (mask & ~np.isnan(z))
    vals = np.zeros(z.shape + (0,)) if values is None else values.reshape(ny, nx, -1)
    uv, dd = ref.project(np.column_stack((X.ravel(), Y.ravel(), z.ravel())))
    uv = uv.reshape(ny, nx, 2)
    if depth:
        vals = np.dstack((vals, dd.reshape(ny, nx)))
    # Which tiles exist, from the public tiling
    tiles = Raster(z, x=tuple(xlim), y=tuple(ylim)).tile_indices(size=tile, overlap=overlap)
    m.count("tiles", len(tiles))
    unsure = np.zeros((sz[1], sz[0]), dtype=bool)
    options = {}
    for ij in tiles:
        bins = {}
        s, t, w = sel[ij], uv[ij], vals[ij]
        for r in range(s.shape[0]):
            for c in range(s.shape[1]):
                a, b = t[r, c]
                if not s[r, c] or not np.isfinite(a):
                    continue
                if a < -1e-5 or b < -1e-5 or a > sz[0] + 1e-5 or b > sz[1] + 1e-5:
                    continue
                near = min(abs(a - round(a)), abs(b - round(b))) < 1e-5
                if near:
                    for di in (-1, 0, 1):
                        for dj in (-1, 0, 1):
                            i, j = int(np.floor(b)) + di, int(np.floor(a)) + dj
                            if 0 <= i < sz[1] and 0 <= j < sz[0]:
                                unsure[i, j] = True
                    continue
                bins.setdefault((int(b), int(a)), []).append(w[r, c])
        for k, v in bins.items():
            options.setdefault(k, []).append(np.mean(v, axis=0))
    tol = 1e-6 * (1 + np.abs(dd[np.isfinite(dd)]).max() if np.isfinite(dd).any() else 1)
    n = 0
    for i in range(sz[1]):
        for j in range(sz[0]):
            if unsure[i, j]:
                continue
            if (i, j) not in options:
                if not np.isnan(out[i, j]).all():
                    m.fail("unreached-pixel-not-missing", pixel=(i, j), got=out[i, j])
            else:
                n += 1
                opts = options[(i, j)]
                m.count("pixels of several tiles", len(opts) > 1)
                if not np.allclose(out[i, j], opts[-1], rtol=1e-6, atol=1e-9):
                    m.fail("pixel-value", pixel=(i, j), got=out[i, j], options=opts, ntiles=len(tiles))
    m.count("judged:pixel-value", n)
    m.count("pixels of projected surfaces", n)
    if not n:
        m.trivial()
    m.raises(ValueError, lambda: cam.project_dem(dem, values=np.zeros((ny + 1, nx))), "wrong-values-shape")
    m.raises(ValueError, lambda: cam.project_dem(dem, values=np.zeros((ny, nx)), mask=np.ones((ny, nx + 1), bool)), "wrong-mask-shape")
    m.raises(ValueError, lambda: cam.project_dem(dem), "nothing-to-project")


@workload(quick=120, thorough=2500)
def scaled_surface(rng, m):
    """Rescaled tiles still show the surface: linear values stay linear."""
    ny, nx = int(rng.integers(8, 40)), int(rng.integers(8, 40))
    d = gen.loguniform(rng, 0.5, 30)
    x0, y0 = (0, 0) if rng.random() < 0.5 else (5e5, 6.5e6)
    xlim = [x0 - nx * d / 2, x0 + nx * d / 2]
    ylim = [y0 + ny * d / 2, y0 - ny * d / 2]
    z0 = float(rng.uniform(-10, 10))
    h = d * max(nx, ny) * float(rng.uniform(0.5, 3))
    sz = gen.imgsz(rng, 6, 60)
    f = max(sz) * h / (d * max(nx, ny)) * float(rng.uniform(0.5, 2))
    cam = Camera(imgsz=sz, f=f, xyz=(x0, y0, z0 + h), viewdir=(float(rng.uniform(0, 360)), -90, 0))
    dem = Raster(np.full((ny, nx), z0), x=tuple(xlim), y=tuple(ylim))
    X, Y = np.meshgrid(_centers(xlim, nx), _centers(ylim, ny))
    bands = int(rng.integers(0, 3))
    coef = rng.uniform(-1, 1, (max(bands, 1), 3))
    values = None
    if bands:
        values = np.dstack([c[0] * (X - x0) + c[1] * (Y - y0) + c[2] for c in coef])
    tile = (256, 256) if rng.random() < 0.5 else (int(rng.integers(6, 20)), int(rng.integers(6, 20)))
    kw = dict(tile_size=tile, scale=gen.loguniform(rng, 0.2, 4), scale_limits=(0.3, 3) if rng.random() < 0.7 else (0.5, 1))
    depth = bool(bands == 0 or rng.random() < 0.6)
    m.case(shape=z0, nx=nx, ny=ny, d=d, h=h, f=f, imgsz=sz, bands=bands, depth=depth, viewdir=cam.viewdir, **kw)
    out = m.call(cam.project_dem, dem, values=values, return_depth=depth, **kw)
    m.must(out.shape == (sz[1], sz[0], bands + depth), "image-shape", shape=out.shape)
    reached = ~np.isnan(out).any(axis=2)
    if not reached.any():
        m.trivial()
        return
    m.count("pixels of projected surfaces", reached.sum())
    if depth:
        m.close(out[..., -1][reached], np.full(int(reached.sum()), h), "depth-of-plane", rtol=1e-6)
    # With more than one (rescaled) cell per pixel, no pixel inside is left out
    ts = kw["scale"] * d * f / h
    lim = sorted(kw["scale_limits"])
    if tile == (256, 256) and kw["scale"] >= 1.6 and lim[0] < ts < lim[1] and ts * min(nx, ny) > 4:
        from gmon.refcam import axes

        I, J = np.mgrid[0 : sz[1], 0 : sz[0]]
        xy = RefCam.of(cam).xyd_of_uv(np.column_stack((J.ravel() + 0.5, I.ravel() + 0.5)))
        r, dn, fw = axes(cam.viewdir)
        W = (xy[:, :1] * r + xy[:, 1:] * dn + fw) * h
        pad = 2 * h / f + d / ts
        inside = (np.abs(W[:, 0]) < nx * d / 2 - pad) & (np.abs(W[:, 1]) < ny * d / 2 - pad)
        m.count("densified surfaces")
        m.check(reached.ravel()[inside].all(), "densified-surface-has-no-holes", ts=ts, missing=int((~reached.ravel()[inside]).sum()))
    ii, jj = np.nonzero(reached)
    uv = np.column_stack((jj + 0.5, ii + 0.5))
    P = RefCam.of(cam)
    from gmon.refcam import axes

    r, dn, fw = axes(cam.viewdir)
    xy = P.xyd_of_uv(uv)
    W = (xy[:, :1] * r + xy[:, 1:] * dn + fw) * h
    for b in range(bands):
        want = coef[b, 0] * W[:, 0] + coef[b, 1] * W[:, 1] + coef[b, 2]
        err = np.abs(out[ii, jj, b] - want)
        # within a pixel and a cell (coarsened by up to 1/0.3)
        lim = np.abs(coef[b, :2]).sum() * (h / f + d / 0.3)
        m.check((err <= lim).all(), "linear-surface", worst=err.max(), limit=lim, shape=(ny, nx))
        m.check(out[ii, jj, b].min() >= values[..., b].min() - 1e-6 and out[ii, jj, b].max() <= values[..., b].max() + 1e-6, "within-range")


@workload(quick=150, thorough=3000)
def rescaled_surface(rng, m):
    """A tile is rescaled to the requested cells per pixel at its distance, within limits: its cells are where they should be."""
    ny, nx = int(rng.integers(8, 30)), int(rng.integers(8, 30))
    d = gen.loguniform(rng, 0.5, 30)
    xlim, ylim = [-nx * d / 2, nx * d / 2], [ny * d / 2, -ny * d / 2]
    z0 = float(rng.uniform(-10, 10))
    h = d * max(nx, ny) * float(rng.uniform(0.5, 3))
    sz = gen.imgsz(rng, 6, 60)
    f = max(sz) * h / (d * max(nx, ny)) * float(rng.uniform(0.3, 2))
    cam = Camera(imgsz=sz, f=(f * float(rng.uniform(0.9, 1.1)), f * float(rng.uniform(0.9, 1.1))), xyz=(0, 0, z0 + h), viewdir=(float(rng.uniform(0, 360)), -90, 0))
    lim = tuple(np.sort(np.exp(rng.uniform(np.log(0.3), np.log(3), 2))))
    if rng.random() < 0.4:
        lim = (0.2, 4)
    elif rng.random() < 0.3:
        lim = (1, 1) if rng.random() < 0.5 else (lim[0], max(lim[0], 1))
    kw = dict(scale=float(np.exp(rng.uniform(np.log(0.1), np.log(8)))) * h / (d * f), scale_limits=lim[::-1] if rng.random() < 0.4 else lim)
    kw["scale_limits"] = gen.pick(rng, (tuple, list, np.array))(kw["scale_limits"])
    Z, mask = np.full((ny, nx), z0), None
    I, J = np.mgrid[0:ny, 0:nx]
    box = (0, ny, 0, nx)
    if rng.random() < 0.6:
        a, b = np.sort(rng.choice(np.arange(0, ny + 1, 3), 2, replace=False)), np.sort(rng.choice(np.arange(0, nx + 1, 3), 2, replace=False))
        box = (a[0], a[1], b[0], b[1])
        mask = (I >= a[0]) & (I < a[1]) & (J >= b[0]) & (J < b[1])
        far = (I < a[0] - 3) | (I >= a[1] + 3) | (J < b[0] - 3) | (J >= b[1] + 3)
        Z[far] = z0 + h * float(rng.uniform(-20, 0.9))
        kw["mask"] = mask
        m.count("masked surfaces of other elevations", far.any())
    m.case(nx=nx, ny=ny, d=d, h=h, f=cam.f, imgsz=sz, box=box, viewdir=cam.viewdir, **kw)
    dem = Raster(Z.copy(), x=tuple(xlim), y=tuple(ylim))
    ts = kw["scale"] * d / (h / cam.f.mean())
    m.count("scales beyond the limits", not lim[0] <= ts <= lim[1])
    m.count("scales within the limits", lim[0] < ts < lim[1])
    ts = min(max(ts, lim[0]), lim[1])
    out = m.call(cam.project_dem, dem, return_depth=True, **kw)
    m.must(out.shape == (sz[1], sz[0], 1), "image-shape", shape=out.shape)
    m.equal(np.asarray(dem.array), Z, "dem-unchanged")
    reached = ~np.isnan(out[..., 0])
    m.close(out[..., 0][reached], np.full(int(reached.sum()), h), "depth-of-rescaled-plane", rtol=1e-9)
    n2 = np.array([ny, nx]) * ts
    if (np.abs(n2 % 1 - 0.5) < 1e-6).any() or (np.round(n2) < 1).any():
        return m.trivial()
    n2 = np.round(n2).astype(int)

    def pixels(pad):
        """Pixels of the rescaled cells in the box, and whether they are not close to another pixel."""
        i, j = (np.arange(n2[0]) + 0.5) / n2[0] * ny, (np.arange(n2[1]) + 0.5) / n2[1] * nx
        lo = lambda k, n: box[k] + pad if box[k] else -9
        hi = lambda k, n: box[k] - pad if box[k] < n else n + 9
        i, j = i[(i > lo(0, ny)) & (i < hi(1, ny))], j[(j > lo(2, nx)) & (j < hi(3, nx))]
        jj, ii = np.meshgrid(j, i)
        w = np.column_stack((xlim[0] + jj.ravel() * d, ylim[0] - ii.ravel() * d, np.full(jj.size, z0)))
        return RefCam.of(cam).project(w)[0]

    inside = pixels(0 if mask is None else 2 + 1 / ts)
    safe = (np.abs(inside - np.round(inside)) > 1e-6).all(axis=1) & ((inside > 0) & (inside < sz)).all(axis=1)
    px = inside[safe].astype(int)
    m.count("rescaled cells", len(px))
    m.check(reached[px[:, 1], px[:, 0]].all(), "rescaled-cells-reach-their-pixels", scale=ts)
    most = pixels(0 if mask is None else -2 - 1 / ts)
    near = np.zeros(reached.shape, bool)
    for e in ((-1e-6, -1e-6), (-1e-6, 1e-6), (1e-6, -1e-6), (1e-6, 1e-6)):
        px = np.floor(most + e).astype(int)
        px = np.where((px == sz) & (most <= np.array(sz) + 1e-6), px - 1, px)
        px = px[((px >= 0) & (px < sz)).all(axis=1)]
        near[px[:, 1], px[:, 0]] = True
    m.check(not (reached & ~near).any(), "only-pixels-of-rescaled-cells", scale=ts, extra=int((reached & ~near).sum()))


class _Slow(Raster):
    """A surface whose tiles take time to read."""

    delays = {}

    def __getitem__(self, ij):
        time.sleep(self.delays.get((ij[0].start, ij[1].start), 0))
        return super().__getitem__(ij)


@workload(quick=16, thorough=150)
def tile_order(rng, m):
    """Tiles are drawn in their order, whichever of them is finished first."""
    ny, nx = int(rng.integers(8, 20)), int(rng.integers(8, 20))
    sz = tuple(int(v) for v in rng.integers(2, 12, 2))
    cam = Camera(imgsz=sz, f=20, xyz=(nx / 2, ny / 2, 60), viewdir=(float(rng.uniform(0, 360)), -90, 0))
    Z = rng.uniform(0, 10, (ny, nx))
    kw = dict(values=rng.normal(size=(ny, nx)), tile_size=(int(rng.integers(4, 9)), int(rng.integers(4, 9))), tile_overlap=(int(rng.integers(0, 3)), int(rng.integers(0, 3))), return_depth=bool(rng.random() < 0.5))
    want = m.call(cam.project_dem, Raster(Z.copy(), x=(0, nx), y=(ny, 0)), **kw)
    dem = _Slow(Z.copy(), x=(0, nx), y=(ny, 0))
    starts = [(a.start, b.start) for a, b in dem.tile_indices(size=kw["tile_size"], overlap=kw["tile_overlap"])]
    how = gen.pick(rng, ("reversed", "random", "first"))
    t = {"reversed": np.linspace(0.1, 0, len(starts)), "random": rng.uniform(0, 0.08, len(starts)), "first": np.r_[0.15, np.zeros(len(starts) - 1)]}[how]
    dem.delays = dict(zip(starts, t))
    n = int(rng.integers(2, 5))
    m.case(shape=(ny, nx), imgsz=sz, delays=how, parallel=n, **kw)
    ok, out = m.returns(lambda: cam.project_dem(dem, parallel=n, **kw), "parallel-runs")
    if ok:
        m.count("delayed tiles", len(starts))
        m.equal(out, want, "drawn-in-order", delays=how)


@workload(quick=60, thorough=600)
def aligned_surface(rng, m):
    """Cells that project onto the boundaries of pixels and of the frame fall in a pixel that they touch."""
    sz = tuple(int(v) for v in rng.integers(2, 9, 2))
    h = float(gen.pick(rng, (16, 64)))
    d = float(gen.pick(rng, (1, 2)))
    cam = Camera(imgsz=sz, f=h / d, xyz=(0, 0, h), viewdir=(0, -90, 0))
    # Cell centers at whole and half pixels, from within the frame to beyond it
    over = int(rng.integers(0, 3))
    us = [np.arange(-over, n + over + 1) + (0.0 if rng.random() < 0.7 else 0.5) for n in sz]
    x, y = (us[0] - sz[0] / 2) * d, -(us[1] - sz[1] / 2) * d
    dem = Raster(np.zeros((len(y), len(x))), x=x, y=y)
    values = rng.normal(size=dem.shape)
    m.case(imgsz=sz, h=h, d=d, u=us[0], v=us[1])
    tile = (256, 256) if rng.random() < 0.5 else tuple(int(v) for v in rng.integers(3, 9, 2))
    ok, out = m.returns(lambda: cam.project_dem(dem, values=values, tile_size=tile), "edges-projected")
    if not ok:
        return
    m.must(out.shape == (sz[1], sz[0], 1), "image-shape", shape=out.shape)
    n = 0
    for i in range(sz[1]):
        for j in range(sz[0]):
            a = np.nonzero(np.abs(us[0] - j - 0.5) <= 0.5)[0]
            b = np.nonzero(np.abs(us[1] - i - 0.5) <= 0.5)[0]
            near = values[np.ix_(b, a)].ravel()
            sets = [near[[k for k in range(len(near)) if s >> k & 1]].mean() for s in range(1, 2 ** len(near))]
            n += len(near) > 0
            m.check(bool(np.isclose(out[i, j, 0], sets, rtol=1e-9, atol=1e-12).any()), "touching-cells", pixel=(i, j), got=out[i, j, 0], near=near)
    m.count("pixels touched at their boundaries", n)
