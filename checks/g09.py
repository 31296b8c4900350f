import datetime
import os
import numpy as np
from gmon import META, workload, gen, scratch, gridops as go
from glimpse import Raster, RasterInterpolant

META["rule"] = (
    "A case is a series of rasters (arrays, files or numbers; one grid, flipped axes, shifted or coarser grids; "
    "missing cells; numeric or datetime positions in any order) interpolated at a source, between sources or "
    "outside, with windows, cell sizes, value limits and functions. The oracle interpolates cell by cell from "
    "its own copies of the sources. Non-trivial if the sources differ."
)
META["require"] = {
    "at a source": 100, "between sources": 200, "extrapolated": 40, "rejected": 40, "from files": 80,
    "windows": 80, "mixed with numbers": 40, "other grids": 60, "coarser": 60, "sigmas": 200,
}
META["assumptions"] = [
    "uncertainty is the stated propagation: s0^2 + t^2 (s0^2 + s1^2) + (dz/3 * distance to the nearest source)^2",
    "rasters resized to another cell size are judged to within one (coarser) cell of slope, since the resizing method is not specified",
]


def _axis(rng, n):
    """n distinct positions, as (values, to_float)."""
    if rng.random() < 0.5:
        t0 = datetime.datetime(2012, int(rng.integers(1, 13)), 3, 4, 5)
        s = np.cumsum(rng.integers(1, 10 ** int(rng.integers(1, 7)), n))
        x = [t0 + datetime.timedelta(seconds=int(v)) for v in s]
        return x, lambda v: (v - t0).total_seconds(), lambda f: t0 + datetime.timedelta(seconds=f)
    x = list(np.cumsum(rng.uniform(0.1, 5, n))) if rng.random() < 0.6 else [int(v) for v in np.cumsum(rng.integers(1, 6, n))]
    x = [float(v) if isinstance(v, float) else v for v in x]
    return x, float, float


def _source(rng, M, base_dir=None, k=0):
    """Raster or file of a model."""
    if base_dir is None:
        return Raster(M.array.copy(), x=M.lim[0], y=M.lim[1])
    p = os.path.join(base_dir, f"s{k}.tif")
    kw = {"nan": -9999} if M.array.dtype.kind == "f" else {}
    Raster(M.array.copy(), x=M.lim[0], y=M.lim[1]).write(p, **kw)
    return p


def _models(rng, n, dtype=float, nan=0.3):
    sz = [int(v) for v in rng.integers(1, 12, 2)]
    d = gen.pick(rng, (1.0, 0.1, 0.3, 25.0, 1 / 3))
    lim = []
    for j in range(2):
        a = float(gen.pick(rng, (0, -3.7, 5e5)))
        dj = d if rng.random() < 0.7 else d * 1.7
        l = (a, a + sz[j] * dj)
        lim.append(l if rng.random() < 0.5 else l[::-1])
    out = []
    for _ in range(n):
        if dtype is float:
            a = rng.normal(size=sz[::-1]) * 10
            if rng.random() < nan:
                a[rng.random(a.shape) < 0.1] = np.nan
        else:
            a = rng.integers(0, 255, sz[::-1]).astype(dtype)
        out.append(go.Model(lim, sz, a))
    return out


def _choose(rng, x, tof, fromf, extrapolate):
    """Query position, its kind and the indices of the bracketing sources."""
    f = np.array([tof(v) for v in x])
    o = np.argsort(f)
    r = rng.random()
    if r < 0.3:
        i = int(rng.integers(len(x)))
        return x[i], "at", f
    if r < 0.75 and len(x) > 1:
        i = int(rng.integers(len(x) - 1))
        t = float(rng.uniform(0.02, 0.98))
        q = f[o[i]] + t * (f[o[i + 1]] - f[o[i]])
        return fromf(round(q, 6) if isinstance(x[0], datetime.datetime) else q), "between", f
    span = f.max() - f.min() + 1
    q = f.max() + span * float(rng.uniform(0.05, 1)) if rng.random() < 0.5 else f.min() - span * float(rng.uniform(0.05, 1))
    return fromf(q), "outside", f


def _bracket(f, q, extrapolate):
    if extrapolate:
        i, j = sorted(np.argsort(np.abs(f - q), kind="stable")[:2], key=lambda k: f[k])
        return i, j
    lo, hi = np.where(f <= q)[0], np.where(f >= q)[0]
    if not len(lo) or not len(hi):
        return None
    return lo[np.argmax(f[lo])], hi[np.argmin(f[hi])]


def _expect(z, s, f, i, j, q):
    if i == j:
        a = z[i].astype(float)
        return a, None if s is None else np.where(np.isnan(a), np.nan, s[i])
    t = (q - f[i]) / (f[j] - f[i])
    a, b = z[i].astype(float), z[j].astype(float)
    e = a + t * (b - a)
    if s is None:
        return e, None
    near = min(abs(q - f[i]), abs(q - f[j])) / (f[j] - f[i])
    sa, sb = np.asarray(s[i], float), np.asarray(s[j], float)
    return e, np.sqrt(sa ** 2 + t ** 2 * (sa ** 2 + sb ** 2) + ((b - a) / 3 * near) ** 2)


def _flip(M, fx, fy):
    a = M.array[::-1 if fy else 1, ::-1 if fx else 1]
    lim = [M.lim[0][::-1] if fx else M.lim[0], M.lim[1][::-1] if fy else M.lim[1]]
    return go.Model(lim, M.n, a.copy())


@workload(quick=500, thorough=8000)
def same_grid(rng, m):
    n = int(rng.integers(2, 6))
    dtype = gen.pick(rng, (float, float, float, np.uint8, np.int16))
    Ms = _models(rng, n, dtype)
    x, tof, fromf = _axis(rng, n)
    order = rng.permutation(n) if rng.random() < 0.6 else np.arange(n)
    x = [x[k] for k in order]
    extrapolate = bool(rng.random() < 0.4)
    xi, kind, f = _choose(rng, x, tof, fromf, extrapolate)
    q = tof(xi)
    files = scratch() if rng.random() < 0.3 else None
    # sources after the first may run along other directions
    stored = [M if k == 0 or rng.random() < 0.7 or min(M.n) < 2 else _flip(M, *(rng.random(2) < 0.5)) for k, M in enumerate(Ms)]
    if dtype is not float:
        stored = Ms
    src = [_source(rng, M, files, k) for k, M in enumerate(stored)]
    crs = gen.pick(rng, (None, 32606)) if files is None else None
    if crs:
        for r in src:
            r.crs = crs
    use_sigma = rng.random() < 0.6
    sig, sval = None, None
    if use_sigma:
        sk = gen.pick(rng, ("none", "numbers", "rasters", "mixed"))
        if sk != "none":
            sval, sig = [], []
            for M in Ms:
                if sk == "numbers" or (sk == "mixed" and rng.random() < 0.5):
                    v = float(rng.uniform(0, 3))
                    sval.append(v)
                    sig.append(v)
                else:
                    v = rng.uniform(0, 3, M.array.shape)
                    sval.append(v)
                    sig.append(Raster(v.copy(), x=M.lim[0], y=M.lim[1]))
        else:
            sval = [0.0] * n
        m.count("sigmas")
    m.case(n=n, lim=Ms[0].lim, size=Ms[0].n, x=x, xi=xi, kind=kind, extrapolate=extrapolate, files=files is not None, dtype=np.dtype(dtype).name, z=[M.array for M in stored])
    kw = {}
    if sig is not None:
        kw["sigmas"] = sig
    own = rng.random() < 0.2 and files is None and isinstance(x[0], datetime.datetime)
    if own:
        for r, t in zip(src, x):
            r.datetime = t
    else:
        kw["x"] = gen.pick(rng, (list, tuple, np.asarray))(x)
    I = RasterInterpolant(src, **kw)
    ij = _bracket(f, q, extrapolate)
    call = {}
    if extrapolate:
        call["extrapolate"] = True
    zl = None
    if rng.random() < 0.2 and dtype is float:
        zl = [float(v) for v in rng.uniform(-15, 15, 2)]
        call["zlim"] = zl
    add = None
    if rng.random() < 0.2:
        add = float(rng.uniform(-5, 5))

        def fun(r, k=1):
            r.array = r.array + add * k

        call["fun"] = fun
        if rng.random() < 0.5:
            call["k"] = 2
    if use_sigma:
        call["return_sigma"] = True
    if ij is None:
        m.count("rejected")
        m.raises(ValueError, lambda: I(xi, **call), "outside-raises", xi=xi)
        m.raises(ValueError, lambda: I.nearest(xi), "nearest-outside-raises")
        return
    i, j = ij
    m.count({"at": "at a source", "between": "between sources", "outside": "extrapolated"}[kind])
    m.count("from files", files is not None)
    got = tuple(int(v) for v in I.nearest(xi, extrapolate=extrapolate))
    if kind != "at" or not extrapolate:
        ok = got == (i, j) or (extrapolate and {abs(f[k] - q) for k in got} == {abs(f[k] - q) for k in (i, j)})
        m.check(ok, "bracketing-sources", got=got, expected=(i, j), x=x, xi=xi)
        if not ok or got != (i, j):
            return
    z = [M.array.astype(float) for M in Ms]
    if zl is not None:
        z = [np.where((a < min(zl)) | (a > max(zl)), np.nan, a) for a in z]
    if add is not None:
        z = [a + add * call.get("k", 1) for a in z]
    e, es = _expect(z, sval if use_sigma else None, f, i, j, q)
    out = I(xi, **call)
    if use_sigma:
        m.must(isinstance(out, tuple) and len(out) == 2, "returns-sigma")
        out, sig_out = out
    _judge(m, out, e, Ms[0], xi)
    if crs:
        m.check(out.crs == crs, "mean-crs", got=out.crs)
    if use_sigma:
        _judge(m, sig_out, es, Ms[0], xi, mech="sigma")
        m.check((np.asarray(sig_out.array)[np.isfinite(sig_out.array)] >= 0), "sigma-nonnegative")
    if kind == "between" and f[i] <= q <= f[j]:
        lo, hi = np.fmin(z[i], z[j]), np.fmax(z[i], z[j])
        a = _aligned(out, Ms[0])
        ok = np.isnan(a) | ((a >= lo - 1e-9) & (a <= hi + 1e-9))
        m.check(ok, "between-the-sources")
    if files is None:
        for r, M in zip(src, stored):
            m.equal(np.asarray(r.array), M.array, "sources-unchanged")
            m.close(r.xlim, M.lim[0], "source-limits-unchanged", rtol=0, atol=0)
    # results never share memory with the sources
    out.array[...] = 777
    if files is None:
        m.equal(np.asarray(src[i].array), stored[i].array, "result-independent-of-source")


def _aligned(r, M):
    """Values of a raster on a model's grid, in the model's axis directions."""
    a = np.asarray(r.array, dtype=float)
    if (r.xlim[0] < r.xlim[1]) != (M.lim[0][0] < M.lim[0][1]):
        a = a[:, ::-1]
    if (r.ylim[0] < r.ylim[1]) != (M.lim[1][0] < M.lim[1][1]):
        a = a[::-1]
    return a


def _judge(m, out, e, M, xi, mech="mean"):
    m.must(np.shape(out.array) == tuple(M.n[::-1]), mech + "-size", got=np.shape(out.array))
    for j, l in enumerate((out.xlim, out.ylim)):
        m.close(np.sort(l), np.sort(M.lim[j]), mech + "-limits", rtol=1e-12, atol=1e-9)
    sc = np.nanmax(np.abs(e)) if np.isfinite(e).any() else 1
    m.close(_aligned(out, M), e, mech + "-values", rtol=1e-7, atol=1e-9 * (1 + sc))
    if isinstance(xi, datetime.datetime):
        m.equal(out.datetime, xi, mech + "-datetime")


@workload(quick=200, thorough=3000)
def windows(rng, m):
    """Interpolating a window (or from numbers) is a window of the interpolation."""
    Ms = _models(rng, 2)
    M = Ms[0]
    x, tof, fromf = _axis(rng, 2)
    f = np.array([tof(v) for v in x])
    xi = x[0] if rng.random() < 0.2 else fromf(f[0] + float(rng.uniform(0.1, 0.9)) * (f[1] - f[0]))
    files = scratch() if rng.random() < 0.4 else None
    src = [_source(rng, K, files, k) for k, K in enumerate(Ms)]
    mix = rng.random() < 0.35
    z = [K.array for K in Ms]
    if mix:
        k = int(rng.integers(2))
        v = gen.pick(rng, (0, 3.5, -2))
        src[k] = v
        z[k] = np.full(z[k].shape, float(v))
        m.count("mixed with numbers")
    # window from cell indices, on or inside cell borders
    sl, lim = [], {}
    for j, name in enumerate(("xlim", "ylim")):
        a = int(rng.integers(0, M.n[j]))
        b = int(rng.integers(a, M.n[j]))
        if rng.random() < 0.25:
            a, b = 0, M.n[j] - 1
            if rng.random() < 0.5:
                sl.append(slice(a, b + 1))
                continue
        inset = float(gen.pick(rng, (0, 0, 0.3)))
        l = [M.lim[j][0] + (a + inset) * M.d(j), M.lim[j][0] + (b + 1 - inset) * M.d(j)]
        if rng.random() < 0.5:
            l = l[::-1]
        lim[name] = gen.pick(rng, (tuple, list, np.array))(l)
        sl.append(slice(a, b + 1))
    m.case(lim=M.lim, n=M.n, x=x, xi=xi, window=lim, files=files is not None, mix=mix, z=z)
    m.count("windows", len(lim) > 0)
    m.count("from files", files is not None)
    I = RasterInterpolant(src, x=x, sigmas=gen.pick(rng, (None, [1.0, 2.0])))
    q = tof(xi)
    i, j = _bracket(f, q, False)
    if i == j and isinstance(src[i], (int, float)):
        # a single number has no grid
        return
    e, _ = _expect(z, None, f, i, j, q)
    e = e[sl[1], sl[0]]
    W = go.Model([[M.lim[k][0] + s.start * M.d(k), M.lim[k][0] + s.stop * M.d(k)] for k, s in enumerate(sl)], [s.stop - s.start for s in sl], e)
    out = m.call(I, xi, **lim)
    _judge(m, out, e, W, xi)
    out, s = I(xi, return_sigma=True, **lim)
    _judge(m, out, e, W, xi)
    m.must(np.shape(s.array) == e.shape, "sigma-size", got=np.shape(s.array))
    _, es = _expect(z, [0.0, 0.0] if I.sigmas is None else [1.0, 2.0], f, i, j, q)
    m.close(np.asarray(s.array, float), es[sl[1], sl[0]], "sigma-values", rtol=1e-7, atol=1e-9)


@workload(quick=300, thorough=5000)
def other_grids(rng, m):
    """Sources of other cell sizes or positions: planes stay planes."""
    d0 = float(gen.pick(rng, (1, 0.1, 10, 30)))
    c = [float(v) for v in rng.normal(size=3)]
    # second source: plane times a factor, plus an offset
    k, o = float(rng.uniform(-2, 2)), float(rng.normal() * 5)
    x0, y0 = (0.0, 0.0) if rng.random() < 0.5 else (5e5, 6.7e6)
    kind = gen.pick(rng, ("shifted", "coarser", "target"))
    ratio = float(gen.pick(rng, (2, 3, 1.5))) if kind == "coarser" else 1.0
    P, src, lims = [], [], []
    files = scratch() if rng.random() < 0.3 else None
    first = None
    for q in range(2):
        d = d0 * (ratio if q else 1)
        n = [int(v) for v in (rng.integers(4, 14, 2) if kind == "shifted" else rng.integers(4, 14, 2) * 6)]
        off = rng.uniform(-2.5, 2.5, 2) * d if kind == "shifted" and q else np.zeros(2)
        if kind != "shifted" and first is not None:
            n = [int(round(v * d0 / d)) for v in first]
        if kind == "coarser" and first is None:
            n = [v for v in n]
        first = first or n
        lim = [(x0 + off[0], x0 + off[0] + n[0] * d), (y0 + off[1] + n[1] * d, y0 + off[1])]
        if rng.random() < 0.3:
            lim = [l[::-1] for l in lim]
        M = go.Model(lim, n)
        X, Y = np.meshgrid(M.centers(0), M.centers(1))
        p = c[0] + c[1] * (X - x0) / d0 + c[2] * (Y - y0) / d0
        M.array = p if q == 0 else k * p + o
        P.append(M)
        src.append(_source(rng, M, files, q))
    if rng.random() < 0.5:
        # order of the sources
        P, src = P[::-1], src[::-1]
        swapped = True
    else:
        swapped = False
    t = float(rng.uniform(0.05, 0.95))
    call = {}
    D = d0 * ratio
    if kind == "target":
        D = d0 * float(gen.pick(rng, (2, 3, 1.0, 2.4, 0.5, 0.8)))
        call["d"] = D
    held = [None if files is not None else (np.array(r.array), np.array(r.xlim), np.array(r.ylim)) for r in src]
    sigma = kind != "shifted" and rng.random() < 0.4
    if sigma:
        # standard deviations on grids of their own
        sv = [float(v) for v in rng.uniform(0.5, 3, 2)]
        sig = []
        for M, v in zip(P, sv):
            if rng.random() < 0.3:
                sig.append(v)
            else:
                sig.append(Raster(np.full(M.n[::-1], v), x=M.lim[0], y=M.lim[1]))
    m.case(kind=kind, lims=[M.lim for M in P], ns=[M.n for M in P], plane=c, k=k, o=o, t=t, files=files is not None, **call)
    m.count("other grids", kind == "shifted")
    m.count("coarser", kind != "shifted")
    I = RasterInterpolant(src, x=(0, 1), **({"sigmas": sig} if sigma else {}))
    lo = np.max([np.min(M.lim, axis=1) for M in P], axis=0)
    hi = np.min([np.max(M.lim, axis=1) for M in P], axis=0)
    if (hi - lo < D * 0.01).any():
        return
    if rng.random() < 0.4 and D == d0 * ratio and kind != "target":
        # limits of the sources themselves, in one or both directions
        for j, name in enumerate(("xlim", "ylim")):
            if rng.random() < 0.6:
                call[name] = (float(lo[j]), float(hi[j]))
    out = m.call(I, t, **call)
    for r, h in zip(src, held):
        if h is not None:
            ok = np.array_equal(r.array, h[0]) and np.array_equal(r.xlim, h[1]) and np.array_equal(r.ylim, h[2])
            m.check(ok, "other-grids-sources-unchanged", size=r.size, before=h[0].shape, call=call)
    if sigma:
        again, so = m.call(I, t, return_sigma=True, **call)
        m.close(again.array, out.array, "same-with-sigma", rtol=0, atol=0)
        m.check(so.shape == out.shape and np.allclose(so.xlim, out.xlim) and np.allclose(so.ylim, out.ylim), "sigma-grid-is-mean-grid", got=(so.shape, so.xlim, so.ylim), want=(out.shape, out.xlim, out.ylim))
        m.count("sigmas on other grids")
        s0, s1 = np.full(out.shape, sv[0]), np.full(out.shape, sv[1])
        # at least what the second moments of the sources give, with no difference between means
        least = np.sqrt(s0 ** 2 + t ** 2 * (s0 ** 2 + s1 ** 2))
        ok = np.isfinite(np.asarray(out.array, float)) & np.isfinite(so.array)
        m.check((np.asarray(so.array)[ok] >= least[ok] * (1 - 1e-6)).all(), "sigma-of-other-grids")
        g = so.shape
        mid = np.zeros(g, bool)
        mid[1:-1, 1:-1] = True
        m.check(np.isfinite(np.asarray(so.array)[mid & np.isfinite(out.array)]).all(), "sigma-not-missing")
        for r, h in zip(sig, P):
            if isinstance(r, Raster):
                m.check(tuple(r.size) == tuple(h.n), "sigma-sources-unchanged", size=r.size)
    a = np.asarray(out.array, float)
    cell = np.abs(out.d)
    m.check((np.abs(cell - D) < 0.35 * D).all(), "cell-size", got=cell, expected=D)
    blo, bhi = np.min([out.xlim, out.ylim], axis=1), np.max([out.xlim, out.ylim], axis=1)
    m.check((blo <= lo + 1e-6 * D).all() and (bhi >= hi - 1e-6 * D).all(), "covers-common-area", got=(blo, bhi), expected=(lo, hi))
    m.check((blo > lo - 1.001 * D).all() and (bhi < hi + 1.001 * D).all(), "no-more-than-common-area", got=(blo, bhi), expected=(lo, hi))
    X, Y = np.meshgrid(out.x, out.y)
    p = c[0] + c[1] * (X - x0) / d0 + c[2] * (Y - y0) / d0
    zs = [p, k * p + o]
    if swapped:
        zs = zs[::-1]
    e = zs[0] + t * (zs[1] - zs[0])
    slope = (abs(c[1]) + abs(c[2])) / d0 * max(1, abs(k))
    # cells at least half a cell inside both sources are never missing
    inner = (X > lo[0] + D / 2) & (X < hi[0] - D / 2) & (Y > lo[1] + D / 2) & (Y < hi[1] - D / 2)
    m.check(np.isfinite(a[inner]), "common-area-not-missing")
    tol = 1e-6 * (1 + np.abs(e).max()) if kind == "shifted" or (kind == "target" and D == d0) else slope * D * 1.01 + 1e-6
    m.check((np.abs(a - e)[inner] <= tol), "values-of-the-planes", err=np.nanmax(np.abs(a - e)[inner], initial=0), tol=tol)
    mid = np.isfinite(a) & ~inner
    m.check((np.abs(a - e)[mid] <= max(tol, slope * D * 2.5)), "values-near-the-border", tol=tol)
