import numpy as np
import scipy.ndimage
from gmon import META, workload, gen, gridops as go
from glimpse import Raster

META["rule"] = (
    "A case is a random square-celled terrain (rough, smooth, with walls or missing cells, any axis "
    "direction) and an origin (on or between cell centres, low or high; for horizons also outside). "
    "The oracle computes every cell's elevation ratio in world coordinates: a cell is clearly visible "
    "if it exceeds every nearer cell in a corridor that widens with the algorithm's angular reach, "
    "clearly hidden if some ring of the corridor lies wholly above it."
)
META["require"] = {"clearly visible": 3000, "clearly hidden": 3000, "sight lines": 1500, "axis-aligned sight lines": 150, "axis-aligned from outside": 40, "horizon points": 500, "outside origins": 50, "distant horizon points": 500}
META["assumptions"] = [
    "cells neither clearly visible nor clearly hidden are not judged (the method interpolates between rings), nor is the origin's cell",
    "cells are square; horizons of a full circle of headings",
]


def _terrain(rng, lo=5, hi=36):
    n = [int(v) for v in rng.integers(lo, hi, 2)]
    d = gen.pick(rng, (1.0, 0.3, 2.5, 30.0))
    lim = []
    for j in range(2):
        a = float(gen.pick(rng, (0, -7, 5e5, 6.7e6)))
        l = (a, a + n[j] * d)
        lim.append(l if rng.random() < 0.5 else l[::-1])
    kind = gen.pick(rng, ("rough", "smooth", "smooth", "flat", "slope"))
    z = rng.normal(size=(n[1], n[0]))
    if kind == "smooth":
        z = scipy.ndimage.gaussian_filter(z, float(rng.uniform(1, 3))) * 5
    elif kind == "flat":
        z = z * 0
    elif kind == "slope":
        z = z * 0.02 + np.arange(n[0]) * float(rng.normal()) * 0.2 + np.arange(n[1])[:, None] * float(rng.normal()) * 0.2
    z = z * d * gen.loguniform(rng, 0.2, 3)
    M = go.Model(lim, n, z)
    return M, d, kind


def _correction(rng, d, n):
    """(argument, curvature) with a noticeable effect."""
    r = rng.random()
    if r < 0.5:
        return False, 0.0
    if r < 0.6:
        return True, (0.13 - 1) / (2 * 6.3781e6)
    R = d * n * float(rng.uniform(3, 30))
    k = gen.pick(rng, (0.0, 0.13, 0.5))
    c = {"radius": R, "refraction": k}
    if k == 0.13 and rng.random() < 0.5:
        del c["refraction"]
    return c, (k - 1) / (2 * R)


def _ratios(M, o, curve):
    X, Y = np.meshgrid(M.centers(0), M.centers(1))
    dx, dy = X - o[0], Y - o[1]
    r = np.hypot(dx, dy)
    with np.errstate(divide="ignore", invalid="ignore"):
        e = (M.array - o[2] + curve * r ** 2) / r
    return dx, dy, r, e


@workload(quick=260, thorough=4000)
def viewshed(rng, m):
    M, d, kind = _terrain(rng)
    nx, ny = M.n
    ci, cj = int(rng.integers(ny)), int(rng.integers(nx))
    if rng.random() < 0.6:
        # nearer the middle
        ci, cj = int(rng.integers(ny // 4, ny - ny // 4)), int(rng.integers(nx // 4, nx - nx // 4))
    off = np.zeros(2) if rng.random() < 0.4 else rng.uniform(-0.49, 0.49, 2)
    base = M.array[ci, cj]
    o = [M.centers(0)[cj] + off[0] * d, M.centers(1)[ci] + off[1] * d, 0.0]
    X, Y = np.meshgrid(M.centers(0), M.centers(1))
    rad = np.hypot(X - o[0], Y - o[1]) / d
    wall = rng.random() < 0.4
    if wall:
        R = float(rng.uniform(2.5, max(nx, ny) / 3 + 2.6))
        W = (rad > R) & (rad < R + float(rng.uniform(2, 4)))
        if rng.random() < 0.5:
            a = np.arctan2(Y - o[1], X - o[0])
            W &= np.abs((a - float(rng.uniform(-3, 3)) + np.pi) % (2 * np.pi) - np.pi) < float(rng.uniform(0.5, 2.5))
        M.array[W] += d * float(rng.uniform(1, 20))
    holes = rng.random() < 0.25
    if holes:
        M.array[(rng.random(M.array.shape) < 0.1) & (rad > gen.pick(rng, (0.5, 2.6)))] = np.nan
    o[2] = float(base + d * gen.pick(rng, (0.0, 0.5, 2.0, 10.0, float(rng.uniform(-3, 30)))))
    corr, curve = _correction(rng, d, max(nx, ny))
    integer = rng.random() < 0.15 and not holes
    if integer:
        M.array = np.round(M.array).astype(int)
        if rng.random() < 0.5:
            o[2] = int(o[2])
    m.case(lim=M.lim, n=M.n, kind=kind, origin=o, correction=corr, wall=wall, array=M.array)
    r = Raster(M.array.copy(), x=M.lim[0], y=M.lim[1])
    org = gen.pick(rng, (tuple, list, np.array))(o)
    v = m.call(r.viewshed, org, correction=corr)
    m.must(np.shape(v) == M.array.shape and np.asarray(v).dtype == bool, "boolean-grid", got=np.shape(v))
    m.equal(np.asarray(r.array), M.array, "terrain-unchanged")
    nan = np.isnan(M.array.astype(float))
    m.check(not (v & nan).any(), "missing-never-visible")
    dx, dy, dist, e = _ratios(M, o, curve)
    k = dist / d
    head = np.arctan2(dy, dx)
    ring = np.floor(k + 0.5)
    lo = np.array(M.lim).min(axis=1) + 0.5 * d
    hi = np.array(M.lim).max(axis=1) - 0.5 * d
    cells = np.argwhere((ring > 1) & ~nan)
    if len(cells) > 90:
        cells = cells[rng.choice(len(cells), 90, replace=False)]
    near = k[(ring > 0)]
    sc = np.nanmax(np.abs(e[ring > 0])) + 1
    for i, j in cells:
        K = k[i, j]
        inner = (ring > 0) & (ring < ring[i, j])
        kk = np.maximum(k, 1)
        reach = np.log(K / np.minimum(kk, K)) + 3 / kk
        dh = np.abs((head - head[i, j] + np.pi) % (2 * np.pi) - np.pi)
        cor = inner & (dh <= reach)
        # corridor arcs must lie on the terrain, where rings are whole
        rr = np.arange(1, ring[i, j])
        wide = np.log(K / np.minimum(rr, K)) + 5 / rr
        full = wide >= np.pi
        t = np.linspace(-1, 1, 9)
        ang = head[i, j] + np.minimum(wide, np.pi)[:, None] * t
        px, py = o[0] + rr[:, None] * d * np.cos(ang), o[1] + rr[:, None] * d * np.sin(ang)
        if not ((px > lo[0]) & (px < hi[0]) & (py > lo[1]) & (py < hi[1])).all():
            continue
        ee = e[cor & ~nan]
        if not len(ee):
            continue
        if e[i, j] > ee.max() + 1e-7 * sc:
            m.count("clearly visible")
            m.check(bool(v[i, j]), "visible-is-reported", cell=(i, j), ratio=e[i, j], highest=ee.max(), k=K)
            continue
        hidden = False
        for q in range(1, int(ring[i, j])):
            c = cor & (ring == q)
            if c.any() and not nan[c].any() and e[c].min() > e[i, j] + 1e-7 * sc:
                hidden = True
                break
        if hidden:
            m.count("clearly hidden")
            m.check(not v[i, j], "hidden-is-reported", cell=(i, j), ratio=e[i, j], behind=q, k=K)


@workload(quick=120, thorough=2500)
def viewshed_relations(rng, m):
    """What is seen depends on the world, not on its units, orientation or storage."""
    n = [int(v) for v in rng.integers(4, 30, 2)]
    d = float(gen.pick(rng, (1, 2, 0.5)))
    z = rng.normal(size=(n[1], n[0]))
    if rng.random() < 0.6:
        z = scipy.ndimage.gaussian_filter(z, float(rng.uniform(0.7, 2))) * 5
    z = z * d * float(rng.uniform(0.5, 3))
    if rng.random() < 0.2:
        z[rng.random(z.shape) < 0.1] = np.nan
    half = np.array(n) * d / 2
    x, y = (-half[0], half[0]), (half[1], -half[1])
    # exact in binary, such that mirroring and shifting are exact
    o = np.round(rng.uniform(-0.95, 0.95, 2) * half * 64) / 64
    if rng.random() < 0.3:
        o = (np.floor(o / d) + 0.5 * (np.array(n) % 2 == 0)) * d
        o = np.clip(o, -half + d / 2, half - d / 2)
    up = float(np.round(d * rng.uniform(-1, 6) * 64) / 64)
    o = (float(o[0]), float(o[1]), up)
    m.case(n=n, d=d, origin=o, array=z)
    v = m.call(Raster(z.copy(), x=x, y=y).viewshed, o)
    m.count("cells in related viewsheds", v.size)

    def relate(mech, want, array, x, y, origin, **kw):
        got = Raster(array.copy(), x=x, y=y).viewshed(origin, **kw)
        m.check((got == want).all(), mech, cells=np.argwhere(got != want)[:5], n=int((got != want).sum()))

    # stored along other directions
    relate("stored-upside-down", v[::-1], z[::-1], x, y[::-1], o)
    relate("stored-from-the-right", v[:, ::-1], z[:, ::-1], x[::-1], y, o)
    # the world mirrored or turned
    relate("mirrored", v[:, ::-1], z[:, ::-1], x, y, (-o[0], o[1], o[2]))
    relate("upside-down", v[::-1], z[::-1], x, y, (o[0], -o[1], o[2]))
    relate("half-turn", v[::-1, ::-1], z[::-1, ::-1], x, y, (-o[0], -o[1], o[2]))
    relate("quarter-turn", np.rot90(v), np.rot90(z), (-half[1], half[1]), (half[0], -half[0]), (-o[1], o[0], o[2]))
    # other units
    u = float(gen.pick(rng, (4, 0.25)))
    relate("other-units", v, z * u, np.multiply(x, u), np.multiply(y, u), tuple(np.multiply(o, u)))
    # heights exaggerated about the origin
    relate("vertical-scale", v, (z - up) * u, x, y, (o[0], o[1], 0.0))
    # curvature and refraction lower the terrain
    X, Y = np.meshgrid(x[0] + (np.arange(n[0]) + 0.5) * d, y[0] - (np.arange(n[1]) + 0.5) * d)
    d2 = (X - o[0]) ** 2 + (Y - o[1]) ** 2
    R, k = d * max(n) * float(rng.uniform(1, 6)), float(gen.pick(rng, (0, 0.13, 0.5)))
    lowered = z - (1 - k) * d2 / (2 * R)
    want = Raster(lowered, x=x, y=y).viewshed(o)
    m.count("viewsheds changed by the correction", (want != v).any())
    relate("correction", want, z, x, y, o, correction={"radius": R, "refraction": k})
    # by default, of the Earth (over hundreds of kilometers)
    u = 2.0 ** 14
    big = z * u / 4
    want = Raster(big - (1 - 0.13) * d2 * u ** 2 / (2 * 6.3781e6), x=np.multiply(x, u), y=np.multiply(y, u)).viewshed((o[0] * u, o[1] * u, up))
    relate("correction-default", want, big, np.multiply(x, u), np.multiply(y, u), (o[0] * u, o[1] * u, up), correction=gen.pick(rng, (True, {})))
    flat = Raster(big, x=np.multiply(x, u), y=np.multiply(y, u)).viewshed((o[0] * u, o[1] * u, up), correction=False)
    m.count("viewsheds changed by the Earth", (want != flat).any())


@workload(quick=100, thorough=1500)
def open_and_enclosed(rng, m):
    """Every cell of an open plain is seen; none beyond a full enclosure."""
    M, d, _ = _terrain(rng, 3, 30)
    nx, ny = M.n
    M.array = np.full((ny, nx), float(rng.normal()))
    o = [float(rng.uniform(min(l), max(l))) for l in M.lim]
    o.append(M.array[0, 0] + d * float(rng.uniform(0.5, 50)))
    X, Y = np.meshgrid(M.centers(0), M.centers(1))
    k = np.hypot(X - o[0], Y - o[1]) / d
    own = np.floor(k + 0.5) == 0
    m.case(lim=M.lim, n=M.n, origin=o)
    v = Raster(M.array.copy(), x=M.lim[0], y=M.lim[1]).viewshed(o)
    m.check(v[~own].all(), "plain-all-visible", unseen=np.argwhere(~v & ~own)[:5])
    m.count("clearly visible", (~own).sum())
    R = float(rng.uniform(2, max(nx, ny)))
    W = (k > R) & (k <= R + 2.5)
    M.array[W] += 1000 * d
    v = Raster(M.array.copy(), x=M.lim[0], y=M.lim[1]).viewshed(o)
    inside, beyond = (k <= R) & ~own & (np.floor(k + 0.5) < np.floor(R + 0.5)), k > R + 2.5
    m.check(v[inside].all(), "inside-enclosure-visible")
    m.check(not v[beyond].any(), "beyond-enclosure-hidden", seen=np.argwhere(v & beyond)[:5])
    m.count("clearly hidden", beyond.sum())


def _one(r, o, h, corr):
    """Horizon point along one heading, or None."""
    s = r.horizon(o, headings=[h], correction=corr)
    return None if not len(s) else np.asarray(s[0])[0]


@workload(quick=200, thorough=3000)
def horizon(rng, m):
    M, d, kind = _terrain(rng, 3, 30)
    nx, ny = M.n
    lo, hi = np.array(M.lim).min(axis=1), np.array(M.lim).max(axis=1)
    outside = rng.random() < 0.35
    if outside:
        side = int(rng.integers(4))
        t = rng.uniform(-0.3, 1.3, 2)
        t[side % 2] = (-float(rng.uniform(0.05, 1)), 1 + float(rng.uniform(0.05, 1)))[side // 2]
        o = list(lo + t * (hi - lo))
        m.count("outside origins")
    elif rng.random() < 0.5:
        o = [M.centers(0)[int(rng.integers(nx))], M.centers(1)[int(rng.integers(ny))]]
    else:
        o = list(lo + rng.uniform(0.01, 0.99, 2) * (hi - lo))
    o = [float(v) for v in o] + [float(np.mean(M.array) + d * float(rng.uniform(0, 10)))]
    if rng.random() < 0.35:
        M.array[rng.random(M.array.shape) < 0.2] = np.nan
    corr, curve = _correction(rng, d, max(nx, ny))
    m.case(lim=M.lim, n=M.n, kind=kind, origin=o, correction=corr, array=M.array)
    r = Raster(M.array.copy(), x=M.lim[0], y=M.lim[1])
    step = gen.pick(rng, (5, 8, 15, 30))
    heads = [float(h) for h in np.arange(0, 360, step)] if rng.random() < 0.5 else list(range(0, 360, step))
    dx, dy, dist, e = _ratios(M, o, curve)
    nan = np.isnan(M.array)
    pts = []
    for h in heads:
        p = _one(r, o, h, corr)
        pts.append(p)
        a = np.radians(h)
        along = (dx * np.sin(a) + dy * np.cos(a)) / d
        across = np.abs(dx * np.cos(a) - dy * np.sin(a)) / d
        cor = (across <= 1.6) & (along > -1.5) & ~nan
        m.count("sight lines")
        if p is not None:
            m.count("horizon points")
            i = int(np.argmin(np.abs(M.centers(1) - p[1])))
            j = int(np.argmin(np.abs(M.centers(0) - p[0])))
            at = abs(M.centers(1)[i] - p[1]) < 1e-3 * d and abs(M.centers(0)[j] - p[0]) < 1e-3 * d
            if not m.check(at, "point-is-a-cell", point=p, heading=h):
                continue
            zok = abs(M.array[i, j] - p[2]) <= 1e-9 * (abs(p[2]) + abs(o[2]) + 1)
            m.check(not nan[i, j] and zok, "point-on-terrain", point=p, heading=h, z=M.array[i, j])
            if not m.check(bool(cor[i, j]), "point-along-heading", point=p, heading=h, along=along[i, j], across=across[i, j]):
                continue
        # lower bound: at each distance the sight line crosses one of the corridor's cells
        best = -np.inf
        kmax = along[across <= 1.6].max() if (across <= 1.6).any() else 0
        kmin = max(along[across <= 1.6].min(), 0) if (across <= 1.6).any() else 0
        # rays grazing a corner may leave early: judge where the whole corridor is terrain
        for s in np.arange(np.ceil(kmin) + 2, kmax - 3):
            band = (across <= 1.6) & (np.abs(along - s) <= 1.1)
            w = [o[q] + (s * (np.sin(a), np.cos(a))[q]) * d for q in range(2)]
            side = [(w[0] + t * np.cos(a) * d, w[1] - t * np.sin(a) * d) for t in (-1.7, 1.7)]
            ok = all(lo[0] <= x <= hi[0] and lo[1] <= y <= hi[1] for x, y in side)
            if ok and band.any() and not nan[band].any() and not (dist[band] < 0.8 * d).any():
                best = max(best, e[band].min())
        got = -np.inf
        if p is not None:
            got = e[i, j]
        else:
            # the greatest may be the last of the sight line
            end = cor & (along >= kmax - 4)
            if nan.any():
                end = cor
            got = e[end].max() if end.any() else -np.inf
        if np.isfinite(best):
            m.check(got >= best - 1e-9 * (abs(best) + 1), "greatest-elevation", heading=h, got=got, best=best, point=p)
    # all headings at once: the same points, in unbroken segments
    segs = m.call(r.horizon, tuple(o), headings=heads, correction=corr)
    groups, cur = [], []
    for p in pts + [None]:
        if p is None:
            if cur:
                groups.append(cur)
            cur = []
        else:
            cur.append(p)
    if len(groups) > 1 and pts[0] is not None and pts[-1] is not None:
        groups[0] = groups.pop() + groups[0]
    got = sorted(np.asarray(s).round(6).tolist() for s in segs)
    want = sorted(np.asarray(s).round(6).tolist() for s in groups)
    m.check(got == want, "segments", got=got, want=want)


@workload(quick=200, thorough=3000)
def axis_aligned(rng, m):
    """Sight lines along rows and columns are exact."""
    M, d, _ = _terrain(rng, 2, 20)
    nx, ny = M.n
    i, j = int(rng.integers(ny)), int(rng.integers(nx))
    if rng.random() < 0.4:
        M.array[rng.random(M.array.shape) < 0.3] = np.nan
    o = [M.centers(0)[j], M.centers(1)[i], float(rng.normal() * d)]
    out = None
    if rng.random() < 0.35:
        # from outside, along a row or column
        out = int(rng.integers(2))
        away = d * float(rng.uniform(0.1, 20))
        o[out] = max(M.lim[out]) + away if rng.random() < 0.5 else min(M.lim[out]) - away
        m.count("axis-aligned from outside")
    corr, curve = _correction(rng, d, max(nx, ny))
    m.case(lim=M.lim, n=M.n, origin=o, correction=corr, array=M.array)
    r = Raster(M.array.copy(), x=M.lim[0], y=M.lim[1])
    _, _, _, e = _ratios(M, o, curve)
    X, Y = np.meshgrid(M.centers(0), M.centers(1))
    for h, axis, sign in ((0, 1, 1), (90, 0, 1), (180, 1, -1), (270, 0, -1)):
        if out is not None and axis != out:
            m.check(_one(r, o, h, corr) is None, "no-horizon-past-the-terrain", heading=h)
            continue
        if axis == 1:
            idx = [(k, j) for k in range(ny) if (Y[k, j] - o[1]) * sign > (d / 2 if out is None else 0)]
            idx.sort(key=lambda t: Y[t] * sign)
        else:
            idx = [(i, k) for k in range(nx) if (X[i, k] - o[0]) * sign > (d / 2 if out is None else 0)]
            idx.sort(key=lambda t: X[t] * sign)
        idx = [t for t in idx if not np.isnan(M.array[t])]
        m.count("axis-aligned sight lines")
        p = _one(r, o, h, corr)
        if len(idx) < 2:
            m.check(p is None, "no-horizon-without-terrain-behind", heading=h, got=p)
            continue
        vals = [e[t] for t in idx]
        b = int(np.argmax(vals))
        rest = sorted(vals)
        if rest[-1] - rest[-2] < 1e-9 * (1 + abs(rest[-1])):
            continue
        if b == len(vals) - 1:
            m.check(p is None, "last-cell-is-no-horizon", heading=h, got=p)
        else:
            t = idx[b]
            if m.check(p is not None, "horizon-found", heading=h, want=t):
                m.close(p, [X[t], Y[t], M.array[t]], "horizon-point", rtol=1e-9, atol=1e-6 * d, heading=h)
                m.count("horizon points")


@workload(quick=20, thorough=200)
def distant_walls(rng, m):
    """On large grids, each point of the horizon is on the wall where its heading meets it."""
    n = [int(v) for v in rng.integers(260, 420, 2)]
    d = float(10 ** rng.uniform(-1, 2))
    c = rng.uniform(-1e5, 1e5, 2)
    # Walls along the border, a few cells within it
    inset = [int(v) for v in rng.integers(3, 12, 2)]
    a = np.zeros((n[1], n[0]))
    h = d * float(rng.uniform(20, 200))
    a[inset[1] : -inset[1], inset[0] : -inset[0]] = h
    a[inset[1] + 1 : -inset[1] - 1, inset[0] + 1 : -inset[0] - 1] = 0
    lim = [[c[k] - n[k] * d / 2, c[k] + n[k] * d / 2][:: gen.pick(rng, (1, -1))] for k in range(2)]
    r = Raster(a, x=lim[0], y=lim[1])
    o = [float(c[k] + rng.uniform(-10, 10) * d) for k in range(2)] + [0.0]
    heads = sorted(float(v) for v in rng.uniform(0, 360, 40)) if rng.random() < 0.7 else list(range(0, 360, 9))
    m.case(n=n, d=d, lim=lim, inset=inset, origin=o, headings=heads, h=h)
    ok, segs = m.returns(lambda: r.horizon(o, headings=heads), "distant-horizon")
    if not ok:
        return
    p = np.vstack(segs) if len(segs) else np.zeros((0, 3))
    m.must(p.shape == (len(heads), 3), "point-of-every-heading", got=p.shape)
    m.close(p[:, 2], np.full(len(p), h), "point-on-wall", rtol=1e-9)
    # Every heading has one point across it
    v = (p[:, :2] - o[:2]) / d
    for i in heads:
        t = np.radians(i)
        along = v @ (np.sin(t), np.cos(t))
        across = np.abs(v @ (np.cos(t), -np.sin(t)))
        m.check(bool(((across <= 1.6) & (along > 0)).any()), "point-along-heading", heading=i, across=across[along > 0].min())
        m.count("horizon points")
        m.count("distant horizon points")
