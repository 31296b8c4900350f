import numpy as np
import scipy.ndimage
from gmon import META, workload, gen, gridops as go
from glimpse import Raster

META["rule"] = (
    "A case is a raster (any axis directions, cell sizes and aspect; planes, quadratic surfaces, rough terrain, "
    "integers, missing cells) whose gradient or hillshade is queried, for the latter at any azimuth and altitude. "
    "The oracle differentiates the known function, or differences neighbours in world coordinates, and computes "
    "Lambert brightness from surface normals and the light direction. Non-trivial if the surface is not flat."
)
META["require"] = {"gradients": 200, "cells with a known slope": 5000, "hillshades": 300, "descending axes": 200, "cells next to missing ones": 200}
META["assumptions"] = [
    "hillshades are judged up to the contrast stretch applied to them (linear to 0-1)",
    "rasters have at least two rows and columns",
]


def _grid(rng):
    n = [int(v) for v in rng.integers(2, 30, 2)]
    d = [float(gen.pick(rng, (1, 0.1, 2.5, 30))) for _ in range(2)]
    if rng.random() < 0.5:
        d[1] = d[0]
    lim = []
    for j in range(2):
        a = float(gen.pick(rng, (0, -7, 5e5)))
        l = (a, a + n[j] * d[j])
        lim.append(l if rng.random() < 0.5 else l[::-1])
    return go.Model(lim, n), d, lim


def _differences(a, c, axis):
    """Central differences inside, one-sided at the border, in world coordinates."""
    a = np.moveaxis(a.astype(float), axis, 0)
    c = np.asarray(c).reshape((-1,) + (1,) * (a.ndim - 1))
    out = np.empty(a.shape)
    out[1:-1] = (a[2:] - a[:-2]) / (c[2:] - c[:-2])
    out[0] = (a[1] - a[0]) / (c[1] - c[0])
    out[-1] = (a[-1] - a[-2]) / (c[-1] - c[-2])
    return np.moveaxis(out, 0, axis)


@workload(quick=500, thorough=8000)
def gradient(rng, m):
    M, d, lim = _grid(rng)
    X, Y = np.meshgrid(M.centers(0), M.centers(1))
    x0, y0 = X.mean(), Y.mean()
    kind = gen.pick(rng, ("plane", "quadratic", "rough", "integer", "missing"))
    c = rng.normal(size=6) * gen.loguniform(rng, 0.01, 10)
    x, y = (X - x0) / d[0], (Y - y0) / d[1]
    edx = edy = None
    if kind == "plane":
        a = c[0] + c[1] * x + c[2] * y
        edx, edy = np.full(a.shape, c[1] / d[0]), np.full(a.shape, c[2] / d[1])
    elif kind == "quadratic":
        a = c[0] + c[1] * x + c[2] * y + c[3] * x * y + c[4] * x ** 2 + c[5] * y ** 2
        edx, edy = (c[1] + c[3] * y + 2 * c[4] * x) / d[0], (c[2] + c[3] * x + 2 * c[5] * y) / d[1]
    elif kind == "integer":
        a = rng.integers(0, 200, X.shape).astype(gen.pick(rng, (int, np.uint8, np.int16)))
    else:
        a = rng.normal(size=X.shape) * 10
        if kind == "missing":
            a[rng.random(a.shape) < 0.1] = np.nan
    m.case(lim=lim, n=M.n, kind=kind, c=c)
    m.count("gradients")
    m.count("descending axes", (lim[0][0] > lim[0][1]) or (lim[1][0] > lim[1][1]))
    r = Raster(a.copy(), x=lim[0], y=lim[1])
    gx, gy = r.gradient()
    m.must(np.shape(gx) == a.shape and np.shape(gy) == a.shape, "gradient-shape", got=np.shape(gx))
    sc = np.nanmax(np.abs(a.astype(float))) + 1 if np.isfinite(a.astype(float)).any() else 1
    ex, ey = _differences(a, M.centers(0) - x0, 1), _differences(a, M.centers(1) - y0, 0)
    with np.errstate(invalid="ignore"):
        m.close(gx, ex, "x-differences", rtol=1e-6, atol=1e-9 * sc / d[0])
        m.close(gy, ey, "y-differences", rtol=1e-6, atol=1e-9 * sc / d[1])
    m.count("cells next to missing ones", np.isnan(ex).sum() + np.isnan(ey).sum())
    if edx is not None:
        # central differences of quadratics are exact
        s = np.s_[:, :] if kind == "plane" else np.s_[1:-1, 1:-1]
        m.close(np.asarray(gx)[s], edx[s], "x-slope", rtol=1e-6, atol=1e-8 * sc / d[0])
        m.close(np.asarray(gy)[s], edy[s], "y-slope", rtol=1e-6, atol=1e-8 * sc / d[1])
        m.count("cells with a known slope", edx[s].size)
    m.equal(np.asarray(r.array), a, "raster-unchanged")


@workload(quick=600, thorough=9000)
def hillshade(rng, m):
    M, d, lim = _grid(rng)
    X, Y = np.meshgrid(M.centers(0), M.centers(1))
    a = rng.normal(size=X.shape)
    if rng.random() < 0.6:
        a = scipy.ndimage.gaussian_filter(a, float(rng.uniform(0.5, 3)))
    a = a * min(d) * gen.loguniform(rng, 0.3, 5)
    az, alt = float(rng.uniform(0, 360)), float(rng.uniform(2, 89))
    if rng.random() < 0.3:
        az = float(gen.pick(rng, (0, 45, 90, 135, 180, 270, 315, 360)))
    kw = {"azimuth": az, "altitude": alt}
    if rng.random() < 0.15:
        kw, az, alt = {}, 315, 45
    ve = 1.0
    if rng.random() < 0.3:
        ve = kw["vert_exag"] = float(rng.uniform(0.2, 5))
    m.case(lim=lim, n=M.n, array=a, **kw)
    m.count("hillshades")
    m.count("descending axes", (lim[0][0] > lim[0][1]) or (lim[1][0] > lim[1][1]))
    r = Raster(a.copy(), x=lim[0], y=lim[1])
    out = np.asarray(m.call(r.hillshade, **kw))
    m.must(out.shape == a.shape, "hillshade-shape", got=out.shape)
    m.check(np.isfinite(out) & (out >= 0) & (out <= 1), "hillshade-range")
    gx = _differences(a * ve, M.centers(0) - X.mean(), 1)
    gy = _differences(a * ve, M.centers(1) - Y.mean(), 0)
    A, T = np.radians(az), np.radians(alt)
    light = np.array([np.sin(A) * np.cos(T), np.cos(A) * np.cos(T), np.sin(T)])
    b = (-gx * light[0] - gy * light[1] + light[2]) / np.sqrt(gx ** 2 + gy ** 2 + 1)
    if b.max() - b.min() < 1e-4:
        return m.trivial()
    e = (b - b.min()) / (b.max() - b.min())
    m.close(out, e, "lambert-brightness", rtol=0, atol=1e-5 + 1e-9 / (b.max() - b.min()))
    m.equal(np.asarray(r.array), a, "raster-unchanged")
    # slopes facing the light are brighter than slopes facing away
    if min(a.shape) > 3:
        k = float(rng.uniform(0.2, 1.5))
        s = (X - X.mean()) * np.sin(A) + (Y - Y.mean()) * np.cos(A)
        ridge = Raster(-k * np.abs(s), x=lim[0], y=lim[1])
        o = np.asarray(ridge.hillshade(azimuth=az, altitude=alt))
        w = np.abs(s) > 2.5 * max(d)
        if (w & (s > 0)).any() and (w & (s < 0)).any():
            m.check(o[w & (s > 0)].min() > o[w & (s < 0)].max(), "side-facing-the-light-brighter", azimuth=az)
