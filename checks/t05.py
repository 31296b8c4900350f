import datetime
import os
import numpy as np
import matplotlib.pyplot as plt
import osgeo.gdal
from gmon import META, workload, gen, scratch
from gmon.movie import Recorder
from gmon.scene import save
from glimpse import Camera, Image, Observer, Raster

META["rule"] = (
    "A case is an observer over random strictly increasing times (irregular to the microsecond), of photographs or maps, in files or in "
    "memory, some with equal contents, put through a random series of queries, splits, cache operations and samplings. The oracles are plain "
    "lists of times and of whole images, and polynomials that splines reproduce exactly. Non-trivial if the observer is accepted."
)
META["require"] = {
    "queries": 1500, "images found": 600, "observers rejected": 60, "subsets": 200, "splits": 200, "split parts": 600, "tiles": 1500, "boxes": 3000,
    "boxes rejected": 200, "caches seen": 300, "cache operations": 600, "tiles after file loss": 30, "shifts": 400, "samples": 8000, "grid samples": 150,
    "rejected samples": 100, "animations": 20, "animation frames": 60,
}
META["assumptions"] = [
    "breaks between equal parts are judged to the microsecond",
    "between the outermost cell centers and the edge, tiles are taken to be constant",
]
T0 = datetime.datetime(2020, 3, 4, 5, 6, 7)
US = datetime.timedelta(microseconds=1)


def times(rng, n):
    kind = gen.pick(rng, ("even", "irregular", "microseconds", "clustered"))
    if kind == "even":
        step = gen.pick(rng, (datetime.timedelta(seconds=7), datetime.timedelta(days=1), datetime.timedelta(hours=1, microseconds=3)))
        return [T0 + i * step for i in range(n)]
    if kind == "microseconds":
        d = np.cumsum(rng.integers(1, 9, n))
        return [T0 + int(i) * US for i in d]
    d = np.cumsum(rng.integers(1, 10**9, n) if kind == "irregular" else (10 ** rng.uniform(0, 11, n)).astype(int))
    return [T0 + int(i) * US for i in d]


def arrays(rng, n, size, bands):
    """Contents of images, some of them equal."""
    out = []
    for i in range(n):
        if out and rng.random() < 0.3:
            out.append(out[rng.integers(len(out))].copy())
        else:
            shape = (size[1], size[0]) + ((bands,) if bands > 1 else ())
            out.append(rng.integers(0, 255, shape).astype(np.uint8))
    return out


def write(path, a):
    h, w = a.shape[:2]
    nb = a.shape[2] if a.ndim > 2 else 1
    d = osgeo.gdal.GetDriverByName("GTiff").Create(path, w, h, nb, osgeo.gdal.GDT_Byte)
    for b in range(nb):
        d.GetRasterBand(b + 1).WriteArray(a[..., b] if a.ndim > 2 else a)
    d.SetGeoTransform((0, 1, 0, h, 0, -1))
    d.FlushCache()
    del d


def observer(rng, n=None, size=None, kind=None, cache=None):
    """An observer, the contents of its images and its times."""
    n = n or int(rng.integers(2, 14))
    t = times(rng, n)
    size = size or tuple(int(v) for v in rng.integers(12, 40, 2))
    kind = kind or gen.pick(rng, ("photo", "map-file", "map"))
    bands = 1 if kind == "map-file" else int(gen.pick(rng, (1, 1, 3)))
    data = arrays(rng, n, size, bands)
    imgs = []
    folder = scratch() if kind != "map" else None
    for i in range(n):
        if kind == "map":
            imgs.append(Raster(data[i].copy(), x=(0, size[0]), y=(size[1], 0), datetime=t[i]))
            continue
        path = os.path.join(folder, f"{i}.tif")
        write(path, data[i])
        if kind == "photo":
            imgs.append(Image(path, cam=Camera(imgsz=size, f=(50, 50), xyz=(i, 2, 3), viewdir=(i, -80, 2)), datetime=t[i]))
        else:
            imgs.append(Raster.open(path, datetime=t[i]))
    return Observer(imgs, sigma=float(rng.uniform(0.1, 0.5)), cache=bool(rng.random() < 0.5) if cache is None else cache), data, t, imgs, kind


def plain(rng, n=None, t=None):
    """An observer of images that are never read."""
    t = t or times(rng, n or int(rng.integers(4, 40)))
    imgs = [Image(f"{i}.jpg", cam=Camera(imgsz=(20, 30), f=(50, 50), viewdir=(i, 0, 0)), datetime=d) for i, d in enumerate(t)]
    return Observer(imgs, sigma=0.25, cache=bool(rng.random() < 0.5)), t, imgs


@workload(quick=300, thorough=3000)
def holds(rng, m):
    """Images in time order, found by image or by time."""
    obs, data, t, imgs, kind = observer(rng)
    n = len(t)
    m.case(kind=kind, n=n)
    m.must(len(obs.images) == n and all(a is b for a, b in zip(obs.images, imgs)), "images")
    m.equal(list(obs.datetimes), t, "times")
    for i in range(n):
        ok, j = m.returns(lambda: obs.index(imgs[i]), "index-of-image")
        if ok:
            m.equal(int(j), i, "index-of-image", kind=kind)
            m.count("images found")
    for _ in range(8):
        # Random queries around the times
        i = int(rng.integers(n))
        d = int(gen.pick(rng, (0, 0, 1, 2, int(10 ** rng.uniform(0, 11))))) * (1 if rng.random() < 0.5 else -1)
        q = t[i] + d * US
        gaps = [abs(q - s) for s in t]
        best = min(gaps)
        nearest = [j for j, g in enumerate(gaps) if g == best]
        lim = gen.pick(rng, ("default", None, best, best + US, best - US, best * 2, -best))
        kw = {} if lim == "default" else {"maxdt": lim}
        allowed = datetime.timedelta(0) if lim == "default" else lim
        m.count("queries")
        if allowed is not None and best > abs(allowed):
            m.raises(ValueError, lambda: obs.index(q, **kw), "too-far")
        else:
            ok, j = m.returns(lambda: obs.index(q, **kw), "index-of-time")
            if ok:
                m.check(int(j) in nearest, "index-of-time", got=int(j), want=nearest, limit=lim)
    stranger = Image("x", cam=Camera((3, 4), f=(1, 1)), datetime=t[0]) if kind == "photo" else Raster(np.full((2, 2), 300.0), datetime=t[0])
    m.raises(ValueError, lambda: obs.index(stranger), "unknown-image")
    # The list of images is still the caller's
    own = gen.pick(rng, (list, np.array, tuple))(imgs) if kind == "photo" else list(imgs)
    other = Observer(own, sigma=obs.sigma)
    if not isinstance(own, tuple):
        own[0], own[-1] = own[-1], own[0]
    m.check(len(other.images) == n and all(a is b for a, b in zip(other.images, imgs)), "own-list-of-images")
    # Projections are those of each image
    xyz = rng.uniform(0, 10, (4, 3)) - (0, 0, 60)
    for i in rng.choice(n, 2):
        m.close(obs.xyz_to_uv(xyz, img=int(i)), imgs[i].xyz_to_uv(xyz), "projects", rtol=1e-12)


@workload(quick=70)
def rejected(rng, m):
    n = int(rng.integers(2, 8))
    t = times(rng, n)
    kind = gen.pick(rng, ("one", "none", "missing", "equal", "backward", "swapped"))
    if kind == "one":
        t = t[:1]
    elif kind == "none":
        t = []
    elif kind == "missing":
        t[int(rng.integers(n))] = None
    elif kind == "equal":
        i = int(rng.integers(n - 1))
        t[i + 1] = t[i]
    elif kind == "backward":
        t = t[::-1]
    else:
        i = int(rng.integers(n - 1))
        t[i], t[i + 1] = t[i + 1], t[i]
    imgs = [Raster(np.zeros((3, 3)), datetime=d) for d in t]
    m.case(kind=kind, t=t)
    m.raises(ValueError, lambda: Observer(imgs), "rejected")
    m.count("observers rejected")


@workload(quick=250, thorough=3000)
def subsets(rng, m):
    obs, t, imgs = plain(rng)
    n = len(t)
    i, j = sorted(int(v) for v in rng.choice(n, 2, replace=False))
    kw = {}
    if rng.random() < 0.7:
        kw["start"] = t[i] + int(gen.pick(rng, (0, 1, -1))) * US
    if rng.random() < 0.7:
        kw["end"] = t[j] + int(gen.pick(rng, (0, 1, -1))) * US
    want = [k for k in range(n) if kw.get("start", t[0]) <= t[k] <= kw.get("end", t[-1])]
    if rng.random() < 0.4:
        span = kw.get("end", t[-1]) - kw.get("start", t[0])
        snap = max(span / float(rng.uniform(1, 12)), US)
        kw["snap"] = snap
        if rng.random() < 0.5:
            kw["maxdt"] = snap * float(rng.uniform(0, 0.5))
        kw["origin"] = T0 + datetime.timedelta(seconds=float(rng.uniform(-1e4, 1e4)))
        limit = kw.get("maxdt", snap * 0.5)
        # Each kept image is near a multiple of the interval, and no other image is nearer to it
        near = {}
        for k in range(n):
            q = (t[k] - kw["origin"]) // snap
            for r in (q, q + 1):
                g = abs(t[k] - (kw["origin"] + r * snap))
                near.setdefault(r, []).append((g, k))
        ok_sets = {k for r, v in near.items() for g, k in v if g == min(v)[0] and g <= limit}
        keep = set(want) & ok_sets
    else:
        keep = None
    m.case(t=t, **kw)
    try:
        sub = obs.subset(**kw)
    except ValueError:
        # Too few images, or limits out of order
        if keep is None:
            m.check(len(want) < 2 or kw.get("start", t[0]) > kw.get("end", t[-1]), "subset-of-many", want=want)
        return
    m.count("subsets")
    got = [imgs.index(x) for x in sub.images]
    if keep is None:
        m.equal(got, want, "subset", **kw)
    else:
        m.check(set(got) <= keep and got == sorted(got), "snapped-subset", got=got, allowed=sorted(keep))
        # Images next to targets well inside the limits are kept
        for r, v in near.items():
            target = kw["origin"] + r * kw["snap"]
            g, k = min(v)
            if kw.get("start", t[0]) <= target <= kw.get("end", t[-1]) and g < limit - US and k in want and sum(x[0] <= g + US for x in v) == 1:
                m.check(k in got, "snapped-kept", image=k, target=target, got=got)
    m.check(all(a is imgs[k] for a, k in zip(sub.images, got)), "same-images")
    m.equal(list(sub.datetimes), [t[k] for k in got], "subset-times")
    m.check(sub.sigma == obs.sigma and sub.cache == obs.cache and isinstance(sub, Observer), "subset-settings")
    m.check(obs.images == imgs and list(obs.datetimes) == t, "unchanged")


@workload(quick=300, thorough=4000)
def splits(rng, m):
    obs, t, imgs = plain(rng, n=int(rng.integers(6, 60)))
    n = len(t)
    overlap = int(gen.pick(rng, (0, 1, 1, 2, 3)))
    kw = {} if overlap == 1 and rng.random() < 0.5 else {"overlap": overlap}
    if rng.random() < 0.6:
        k = int(rng.integers(1, max(2, n // 3)))
        arg = k
        span = t[-1] - t[0]
        edges = [t[0] + datetime.timedelta(microseconds=0)]
        total = span // US
        # To the microsecond
        breaks = [t[0] + (total * i // k) * US for i in range(1, k)]
        slack = US
        exact = [total * i % k == 0 for i in range(1, k)]
    else:
        k = int(rng.integers(1, 5))
        inner = sorted(int(v) for v in rng.choice(np.arange(1, n - 1), k - 1, replace=False))
        breaks = [t[i] + int(gen.pick(rng, (0, 0, 1))) * int(rng.integers(0, max(1, (t[i + 1] - t[i]) // US))) * US for i in inner]
        arg = list(breaks)
        if rng.random() < 0.4:
            arg = arg + [gen.pick(rng, (t[0], t[-1]))]
        if rng.random() < 0.3:
            arg = arg[::-1]
        if rng.random() < 0.3:
            arg = np.array(arg) if arg else arg
        slack = datetime.timedelta(0)
        exact = [True] * len(breaks)
    # Images near inexact breaks may be on either side
    ambiguous = any(not e and abs(b - s) <= 2 * US for b, e in zip(breaks, exact) for s in t)
    part = [sum(s > b for b in breaks) for s in t]
    own = [[i for i in range(n) if part[i] == j] for j in range(len(breaks) + 1)]
    want = []
    for j, p in enumerate(own):
        lead = want[-1][-overlap:] if j and overlap else []
        want.append(lead + p)
    m.case(n=n, arg=arg, overlap=overlap, t=t)
    if not ambiguous and (any(len(p) < 2 for p in want) or any(len(p) == 0 for p in own)):
        # No observer can hold these parts
        m.trivial()
        try:
            parts = obs.split(arg, **kw)
        except ValueError:
            return
        m.check(set(x for p in parts for x in [imgs.index(i) for i in p.images]) == set(range(n)), "nothing-lost")
        return
    if ambiguous:
        try:
            parts = obs.split(arg, **kw)
        except ValueError:
            m.trivial()
            return
        ok = True
    else:
        ok, parts = m.returns(lambda: obs.split(arg, **kw), "splits")
    if not ok:
        return
    got = [[imgs.index(x) for x in p.images] for p in parts]
    m.count("splits")
    m.count("split parts", len(got))
    if not ambiguous:
        m.equal(got, want, "parts", want=want)
    m.equal(len(got), len(own), "number-of-parts")
    m.equal(sorted({i for p in got for i in p}), list(range(n)), "nothing-lost", got=got)
    for j, p in enumerate(got):
        m.equal(p, list(range(p[0], p[-1] + 1)), "runs-of-images")
        if j:
            m.equal(p[0], got[j - 1][-1] + 1 - min(overlap, len(got[j - 1])), "overlap", got=got, overlap=overlap)
        m.check(parts[j].sigma == obs.sigma and parts[j].cache == obs.cache, "settings")
        m.check(all(a is imgs[i] for a, i in zip(parts[j].images, p)), "same-images")
    m.check(obs.images == imgs and list(obs.datetimes) == t, "unchanged")


@workload(quick=400, thorough=4000)
def tiles(rng, m):
    """Boxes of the right size around a point, and the pixels in them, through any series of cache operations."""
    obs, data, t, imgs, kind = observer(rng, n=int(rng.integers(2, 6)))
    n = len(t)
    w, h = (int(v) for v in imgs[0].size)
    m.case(kind=kind, n=n, size=(w, h), cache=obs.cache, bands=data[0].ndim)
    held = set()
    lost = set()
    for _ in range(14):
        op = gen.pick(rng, ("tile", "tile", "tile", "cache", "clear", "toggle", "lose"))
        if op in ("cache", "clear"):
            sel = gen.pick(rng, ("all", "list", "slice", "mask", "none"))
            idx = sorted(int(v) for v in rng.choice(n, int(rng.integers(1, n + 1)), replace=False))
            if op == "clear":
                # Keep what cannot be read again
                idx = [i for i in idx if i not in lost]
                sel = gen.pick(rng, ("list", "mask")) if lost else sel
            if sel == "slice":
                idx = list(range(n))[idx[0] :]
            arg = {"list": idx, "slice": slice(idx[0] if idx else n, None), "mask": np.isin(np.arange(n), idx), "none": []}.get(sel)
            fn = obs.cache_images if op == "cache" else obs.clear_images
            idx = list(range(n)) if sel == "all" else [] if sel == "none" else idx
            ok, _ = m.returns((lambda: fn()) if sel == "all" else (lambda: fn(index=arg)), op)
            held = held | set(idx) if op == "cache" else held - set(idx)
            m.count("cache operations")
            continue
        if op == "toggle":
            obs.cache = not obs.cache
            continue
        if op == "lose":
            # Cached images need no file
            gone = [i for i in held if i not in lost]
            if kind == "photo" and gone and rng.random() < 0.5:
                i = gen.pick(rng, gone)
                os.remove(imgs[i].path)
                lost.add(i)
            continue
        i = int(rng.integers(n))
        size = (int(rng.integers(1, w + 1)), int(rng.integers(1, h + 1)))
        box = boxed(rng, m, obs, i, size, (w, h))
        if box is None:
            continue
        ok, tile = m.returns(lambda: obs.extract_tile(box=box, img=i), "extracts")
        if not ok:
            continue
        if obs.cache:
            held.add(i)
        if kind == "photo":
            # Whether contents are kept is what was asked
            m.equal(imgs[i].array is not None, i in held, "cached", cache=obs.cache)
            m.count("caches seen", obs.cache)
        a = data[i][box[1] : box[3], box[0] : box[2]]
        m.equal(np.asarray(tile), a, "pixels", kind=kind, box=box, cache=obs.cache)
        m.count("tiles")
        m.count("tiles after file loss", i in lost)
        m.check(tuple(tile.shape[:2]) == (size[1], size[0]), "tile-size")
    for i in range(n):
        if i not in lost:
            m.equal(np.asarray(imgs[i].read()), data[i], "contents")


def boxed(rng, m, obs, i, size, bounds):
    w, h = bounds
    half = np.array(size) / 2
    lo, hi = half, np.array(bounds) - half
    uv = rng.uniform(lo, hi)
    if rng.random() < 0.4:
        # On or next to pixel centers and edges, and image edges
        uv = np.round(uv * 2) / 2 + gen.pick(rng, (0, 1e-14, -1e-14, 1e-9, -1e-9))
    if rng.random() < 0.15:
        uv = np.where(rng.random(2) < 0.5, lo, hi)
    if rng.random() < 0.15:
        k = rng.integers(2)
        uv[k] = (lo - rng.uniform(1e-6, 20) if rng.random() < 0.5 else hi + rng.uniform(1e-6, 20))[k]
    inside = bool((uv >= lo).all() and (uv <= hi).all())
    m.count("boxes")
    if not inside:
        if (uv < lo - 1e-7).any() or (uv > hi + 1e-7).any():
            m.raises(IndexError, lambda: obs.tile_box(uv, size=size, img=i), "box-beyond-image", uv=uv, size=size, bounds=bounds)
            m.count("boxes rejected")
        return None
    ok, box = m.returns(lambda: obs.tile_box(uv, size=size, img=i), "box", uv=uv, size=size)
    if not ok:
        return None
    m.check(np.issubdtype(box.dtype, np.integer) and box.shape == (4,), "integer-box", got=box)
    m.equal((int(box[2] - box[0]), int(box[3] - box[1])), tuple(int(s) for s in size), "box-size", uv=uv, box=box)
    c = (box[:2] + box[2:]) / 2
    m.check(bool((np.abs(c - uv) <= 0.5 + 1e-6).all()), "box-center", uv=uv, box=box)
    m.check(bool((box[:2] >= 0).all() and box[2] <= w and box[3] <= h), "box-inside", uv=uv, box=box, bounds=bounds)
    return [int(v) for v in box]


@workload(quick=120, thorough=1500)
def boxes(rng, m):
    size = tuple(int(v) for v in rng.integers(5, 3000, 2))
    imgs = [Image("a", cam=Camera(size, f=(9, 9)), datetime=T0), Image("b", cam=Camera(size, f=(9, 9)), datetime=T0 + US)]
    obs = Observer(imgs)
    m.case(size=size)
    for _ in range(30):
        s = tuple(int(v) for v in (10 ** rng.uniform(0, np.log10(size))).astype(int))
        boxed(rng, m, obs, int(rng.integers(2)), s, size)


def poly(rng, kx, ky):
    c = rng.uniform(-1, 1, (ky + 1, kx + 1))

    def f(u, v):
        return np.polynomial.polynomial.polyval2d(v, u, c)

    return f


@workload(quick=400, thorough=6000)
def shifts(rng, m):
    """Shifted tiles hold the values found at the shifted centers."""
    obs, _, _ = plain(rng, n=2)
    kx, ky = (int(v) for v in rng.integers(1, 6, 2))
    ny, nx = (int(v) for v in (rng.integers(7, 20), rng.integers(7, 20)))
    nb = int(gen.pick(rng, (0, 0, 1, 3)))
    duv = gen.pick(rng, (rng.uniform(-0.5, 0.5, 2), np.array([0.5, -0.5]), np.array([0.0, rng.uniform(-0.5, 0.5)])))
    # Splines are along rows, then columns
    fs = [poly(rng, ky, kx) for _ in range(max(nb, 1))]
    u, v = np.meshgrid((np.arange(nx) + 0.5 - nx / 2) / nx, (np.arange(ny) + 0.5 - ny / 2) / ny)
    scale = 1.0
    integer = rng.random() < 0.25
    if integer:
        # Planes with integer values
        a, b = (int(x) for x in rng.integers(-4, 5, 2))
        fs = [lambda u, v, a=a, b=b, o=o: a * (u * nx + nx / 2 - 0.5) + b * (v * ny + ny / 2 - 0.5) + 80 + o for o in range(max(nb, 1))]
    layers = [f(u, v) for f in fs]
    tile = np.stack(layers, axis=-1) if nb else layers[0]
    if integer:
        tile = np.round(tile).astype(gen.pick(rng, (np.int16, np.int32)))
    default = kx == ky == 3 and rng.random() < 0.5
    kw = {} if default else {"kx": kx, "ky": ky}
    m.case(shape=tile.shape, duv=duv, kx=kx, ky=ky, dtype=str(tile.dtype))
    before = tile.copy()
    ok, got = m.returns(lambda: obs.shift_tile(tile, gen.pick(rng, (tuple, np.array))(duv), **kw), "shifts")
    m.equal(tile, before, "tile-unchanged")
    if not ok:
        return
    m.count("shifts")
    du = (np.arange(nx) + 0.5 + duv[0]).clip(0.5, nx - 0.5)
    dv = (np.arange(ny) + 0.5 + duv[1]).clip(0.5, ny - 0.5)
    U, V = np.meshgrid((du - nx / 2) / nx, (dv - ny / 2) / ny)
    want = [f(U, V) for f in fs]
    if nb != 1:
        m.equal(np.shape(got), tile.shape, "same-shape")
    got = np.asarray(got).reshape(ny, nx, max(nb, 1))
    for b, x in enumerate(want):
        m.close(got[..., b], x, "shifted", rtol=1e-7, atol=1e-7 * (1 + np.abs(x).max()), band=b)
    far = np.array([0.51, 0.1]) if rng.random() < 0.5 else np.array([0.2, -0.6])
    m.raises(ValueError, lambda: obs.shift_tile(tile, far), "shift-too-far")


@workload(quick=400, thorough=6000)
def samples(rng, m):
    """Tiles placed anywhere in the image, with cells of any size, sampled at points or on a grid."""
    obs, _, _ = plain(rng, n=2)
    kx, ky = (int(v) for v in rng.integers(1, 6, 2))
    ny, nx = (int(v) for v in (rng.integers(7, 22), rng.integers(7, 22)))
    d = np.array([1.0, 1.0]) if rng.random() < 0.4 else rng.uniform(0.2, 3, 2)
    origin = gen.pick(rng, (np.zeros(2), rng.integers(0, 3000, 2).astype(float), rng.uniform(0, 3000, 2)))
    box = np.append(origin, origin + d * (nx, ny))
    f = poly(rng, ky, kx)
    u, v = np.meshgrid((np.arange(nx) + 0.5 - nx / 2) / nx, (np.arange(ny) + 0.5 - ny / 2) / ny)
    tile = f(u, v)
    before = tile.copy()
    kw = {} if kx == ky == 3 and rng.random() < 0.5 else {"kx": kx, "ky": ky}
    grid = rng.random() < 0.4
    m.case(shape=tile.shape, box=box, kx=kx, ky=ky, grid=grid)

    def value(uv):
        c = (np.asarray(uv) - origin) / d
        c = np.clip(c, 0.5, np.array([nx, ny]) - 0.5)
        c = (c - np.array([nx, ny]) / 2) / (nx, ny)
        return f(c[..., 0], c[..., 1])

    if grid:
        nu, nv = (int(x) for x in rng.integers(1, 9, 2))
        q = (np.sort(rng.uniform(box[0], box[2], nu)), np.sort(rng.uniform(box[1], box[3], nv)))
        ok, got = m.returns(lambda: obs.sample_tile(q, tile=tile, box=box, grid=True, **kw), "samples-on-grid")
        want = value(np.stack(np.meshgrid(*q), axis=-1))
        m.count("grid samples")
        m.count("samples", nu * nv)
    else:
        n = int(rng.integers(1, 60))
        q = rng.uniform(box[:2], box[2:], (n, 2))
        if rng.random() < 0.3:
            q[0] = box[:2]
            q[-1] = box[2:]
        ok, got = m.returns(lambda: obs.sample_tile(q, tile=tile, box=tuple(box) if rng.random() < 0.5 else box, **kw), "samples")
        want = value(q)
        m.count("samples", n)
    m.equal(tile, before, "tile-unchanged")
    if ok:
        m.close(got, want, "sampled", rtol=1e-6, atol=1e-6 * (1 + np.abs(tile).max()), grid=grid)
    # Outside
    k = int(rng.integers(4))
    off = np.array([-1, -1, 1, 1])[k] * float(rng.uniform(1e-3, 5)) * d[k % 2]
    if grid:
        bad = [x.copy() for x in q]
        bad[k % 2][0 if k < 2 else -1] = box[k] + off
        m.raises(ValueError, lambda: obs.sample_tile(tuple(bad), tile=tile, box=box, grid=True, **kw), "outside")
    else:
        bad = q.copy()
        bad[rng.integers(len(bad)), k % 2] = box[k] + off
        m.raises(ValueError, lambda: obs.sample_tile(bad, tile=tile, box=box, **kw), "outside")
    m.count("rejected samples")


@workload(quick=48, thorough=300)
def animations(rng, m):
    """Every frame of an animation shows the tile around the point, at its place in the image."""
    n = int(rng.integers(3, 6))
    t = times(rng, n)
    folder = scratch()
    bands = int(gen.pick(rng, (1, 3)))
    same = bool(rng.random() < 0.6)
    imgs, data = [], []
    for i in range(n):
        if i == 0 or not same:
            size = (int(rng.integers(60, 90)), int(rng.integers(50, 80)))
        a = rng.integers(0, 255, (size[1], size[0], bands)).astype(np.uint8).squeeze()
        write(os.path.join(folder, f"{i}.tif"), a)
        data.append(a)
        cam = Camera(size, f=(500, 500), xyz=(0, 0, 100), viewdir=(0.3 * i, -90 + 0.3 * i, 0.1 * i))
        imgs.append(Image(os.path.join(folder, f"{i}.tif"), cam=cam, datetime=t[i]))
    obs = Observer(imgs, cache=bool(rng.random() < 0.5))
    tile = (int(rng.integers(3, 12)) * 2, int(rng.integers(3, 12)) * 2)
    frames = None if m.index % 3 == 0 else sorted(int(v) for v in rng.choice(n, int(rng.integers(2, n + 1)), replace=False))
    if m.index % 3 == 1:
        frames = gen.pick(rng, (np.array, tuple, list))(frames)
    seq = list(range(n)) if frames is None else [int(v) for v in frames]
    kind = ("animate", "track")[m.index // 3 % 2]
    first = imgs[seq[0]]
    size = np.array(first.size)
    half = np.array(tile) / 2
    far = kind == "animate" and rng.random() < 0.5
    if far:
        # Near a border, or images pointing elsewhere
        uv = rng.uniform(half + 0.6, size - half - 0.6)
        for img in imgs[seq[0] + 1 :]:
            img.cam.viewdir = img.cam.viewdir + rng.normal(0, 3, 3)
    else:
        uv = size / 2 + rng.uniform(-5, 5, 2)
    middle = kind == "animate" and not far and rng.random() < 0.3
    m.case(kind=kind, frames=frames, tile=tile, sizes=[img.size for img in imgs], uv=uv, middle=middle)
    plt.close("all")
    try:
        if kind == "animate":
            if middle:
                uv = size / 2
            xyz = np.repeat(first.uv_to_xyz(uv[None], depth=100), len(seq), axis=0)
            arg = {} if middle else {"uv": gen.pick(rng, (tuple, list, np.array))(uv)}
            ok, anim = m.returns(lambda: obs.animate(frames=frames, size=tile, **arg), "animates")
        else:
            xyz = first.uv_to_xyz(uv[None], depth=100) + rng.uniform(-0.5, 0.5, (len(seq), 3))
            ok, anim = m.returns(lambda: obs.track(xyz=xyz, frames=frames, size=tile), "animates")
        if not ok:
            return
        fig = plt.gcf()
        m.must(len(fig.axes) == 2, "two-plots")
        rec = Recorder()
        ok, _ = m.returns(lambda: anim.save("unused", writer=rec), "plays")
        if not ok:
            return
        m.must(len(rec.frames) == len(seq), "one-frame-per-image", got=len(rec.frames), want=len(seq))
        m.count("animations")
        for j, (i, panels) in enumerate(zip(seq, rec.frames)):
            m.count("animation frames")
            a, bounds = data[i], np.array(imgs[i].size)
            p = imgs[i].xyz_to_uv(xyz[: j + 1])
            for k, panel in enumerate(panels):
                m.must(len(panel["images"]) == 1, "one-image", frame=j, got=len(panel["images"]))
                shown, e = panel["images"][0]
                box = np.array((e[0], e[3], e[1], e[2]), dtype=float)
                if kind == "track" and k == 0:
                    # The first image stays
                    at, source = first.xyz_to_uv(xyz[:1])[0], data[seq[0]]
                    dots = panel["lines"]
                else:
                    at, source = p[-1], a
                    dots = panel["lines"][-1:]
                m.close(dots[-1], at[None], "frame-dot", rtol=0, atol=1e-6, frame=j)
                limits = np.array((source.shape[1], source.shape[0]))
                want = np.concatenate((at - half, at + half))
                if (want[2:] <= 0).any() or (want[:2] >= limits).any():
                    m.check(bool((np.asarray(shown) == 255).all()), "frame-blank", frame=j)
                    m.count("blank frames")
                    continue
                corners = np.array([(want[x], want[y]) for x in (0, 2) for y in (1, 3)])
                if not ((corners >= 0) & (corners <= limits)).all(axis=1).any():
                    # None of the corners in the image
                    continue
                want = np.concatenate((np.maximum(want[:2], 0), np.minimum(want[2:], limits)))
                m.check(bool((np.abs(box - want) <= 0.51 + 1e-6).all() and np.array_equal(box, np.round(box))), "frame-box", frame=j, box=box, want=want)
                b = box.astype(int)
                if not kind == "animate":
                    m.check(bool((b[2:] - b[:2] == tile).all()), "frame-tile-size", box=box, tile=tile)
                want = source[b[1] : b[3], b[0] : b[2]]
                m.check(np.shape(shown) == want.shape and np.array_equal(shown, want), "frame-shows-image", frame=j, shape=np.shape(shown), want=want.shape)
            if kind == "track":
                m.close(panels[1]["lines"][0], p, "frame-path", rtol=0, atol=1e-6, frame=j)
            else:
                for k, at in enumerate((p[-1], uv)):
                    want = np.array([at[0] - half[0], at[0] + half[0], at[1] + half[1], at[1] - half[1]])
                    m.close(panels[k]["limits"], want, "frame-limits", rtol=0, atol=1e-6)
            name = os.path.splitext(os.path.basename(imgs[i].path))[0]
            m.check(any(x.startswith(f"{i} :") and name in x for panel in panels for x in panel["texts"]), "frame-label", frame=j, texts=[panel["texts"] for panel in panels])
        # A tile alone
        ax = plt.figure().gca()
        im = obs.plot_tile(data[0][:7, :11], axes=ax)
        m.equal([float(v) for v in im.get_extent()], [0.0, 11.0, 7.0, 0.0], "plotted-tile")
        b = tuple(float(v) for v in (3, 4, 10, 9))
        m.equal([float(v) for v in obs.plot_tile(data[0][:5, :7], box=b, axes=ax).get_extent()], [3.0, 10.0, 9.0, 4.0], "plotted-tile")
        r = obs.plot_box(b, axes=ax)
        m.equal([float(v) for v in r.get_bbox().bounds], [3.0, 4.0, 7.0, 5.0], "plotted-box")
    finally:
        plt.close("all")
