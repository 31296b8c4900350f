import datetime
import os
import cv2
import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import piexif
from osgeo import gdal
from gmon import META, workload, gen, scratch
from glimpse import Camera, Exif, Image

META["rule"] = (
    "A case is an image file with random pixels (size, bands, data type, format), and either a random sequence of whole, "
    "windowed, cached and uncached reads interleaved with camera resizes and cache clearing, or one projection into a random "
    "camera, one write, or one set of constructor arguments. The oracle is the pixel array that was written to the file. "
    "Non-trivial unless the history has a single read."
)
META["require"] = {
    "reads": 2000, "windows read directly": 400, "windows read from cache": 400, "reads after resize": 400, "resized windows read directly": 100,
    "projected pixels": 5000, "pixels outside the source": 500, "written files": 100, "cameras": 200, "cameras with one focal length argument": 40, "plots": 10,
}
META["assumptions"] = [
    "windows lie inside the image and are not empty",
    "resized pixels are judged against a fresh whole-image read of the same size, and loosely against the source pixels under them",
    "pixels that project to within 1e-6 pixels of the limits of the source's pixel centers are not judged",
]
TYPES = {"u1": gdal.GDT_Byte, "u2": gdal.GDT_UInt16, "f4": gdal.GDT_Float32}


def _write(path, a):
    """Write pixels by GDAL, not by glimpse."""
    drv = "GTiff" if path.endswith(".tif") else "PNG"
    bands = a[:, :, None] if a.ndim == 2 else a
    mem = gdal.GetDriverByName("MEM").Create("", a.shape[1], a.shape[0], bands.shape[2], TYPES[a.dtype.str[1:]])
    for i in range(bands.shape[2]):
        mem.GetRasterBand(i + 1).WriteArray(bands[:, :, i])
    gdal.GetDriverByName(drv).CreateCopy(path, mem)
    mem = None


def _pixels(rng, nx, ny, smooth=False):
    bands = gen.pick(rng, (1, 1, 3))
    dt = gen.pick(rng, ("u1", "u1", "u2", "f4"))
    shape = (ny, nx) if bands == 1 else (ny, nx, bands)
    if smooth:
        y, x = np.mgrid[0:ny, 0:nx]
        a = 100 + 40 * np.sin(x / rng.uniform(2, 9) + rng.uniform(0, 6)) + 40 * np.sin(y / rng.uniform(2, 9))
        a = a if bands == 1 else np.dstack([a, a[::-1], a[:, ::-1]])
        return a.astype(dt)
    if dt == "f4":
        return rng.normal(100, 20, shape).astype(dt)
    return rng.integers(0, 256 if dt == "u1" else 60000, shape).astype(dt)


def _file(rng, a):
    path = os.path.join(scratch(), "x.tif" if a.dtype == np.float32 or rng.random() < 0.5 else "x.png")
    _write(path, a)
    return path


T0 = datetime.datetime(2020, 1, 2, 3, 4, 5)


def _image(path, nx, ny, **kw):
    return Image(path, cam=Camera(imgsz=(nx, ny), f=(max(nx, ny), max(nx, ny)), **kw), datetime=T0)


def _box(rng, nx, ny):
    if rng.random() < 0.1:
        return (0, 0, nx, ny)
    x = np.sort(rng.choice(nx + 1, 2, replace=False))
    y = np.sort(rng.choice(ny + 1, 2, replace=False))
    return gen.pick(rng, (tuple, list, np.array))([int(x[0]), int(y[0]), int(x[1]), int(y[1])])


@workload(quick=1200, thorough=9000)
def histories(rng, m):
    nx, ny = (int(v) for v in rng.integers(1, gen.pick(rng, (6, 30, 30, 80, 300)), 2))
    a = _pixels(rng, nx, ny, smooth=rng.random() < 0.3)
    jpeg = a.dtype == np.uint8 and rng.random() < 0.3
    if jpeg:
        path = os.path.join(scratch(), "x.jpg")
        cv2.imwrite(path, a)
        ds = gdal.Open(path)
        a = np.dstack([ds.GetRasterBand(i + 1).ReadAsArray() for i in range(ds.RasterCount)]).reshape(a.shape)
    else:
        path = _file(rng, a)
    img = _image(path, nx, ny)
    m.case(shape=a.shape, dtype=a.dtype, path=os.path.basename(path))
    ref = {(nx, ny): a}
    log = []
    reads = 0
    for _ in range(int(rng.integers(1, 9))):
        op = gen.pick(rng, ("read", "read", "read", "resize", "clear", "size"))
        if op == "resize":
            s = gen.pick(rng, (0.5, 2, 1, 0.3, 1.7))
            w = tuple(int(v) for v in np.floor(np.array((nx, ny)) * s + 0.5))
            if min(w) < 1:
                continue
            try:
                img.cam.resize(s)
            except ValueError:
                continue
            log.append(("resize", s))
            continue
        if op == "size":
            w = [int(v) for v in rng.integers(1, 60, 2)] if rng.random() < 0.5 else [nx, ny]
            img.cam.imgsz = w
            log.append(("imgsz", w))
            continue
        if op == "clear":
            img.array = None
            log.append(("clear",))
            continue
        size = tuple(int(v) for v in img.cam.imgsz)
        cache = bool(rng.random() < 0.5)
        box = _box(rng, *size) if rng.random() < 0.6 else None
        log.append(("read", None if box is None else list(map(int, box)), cache))
        had = img.array is not None and tuple(img.array.shape[:2][::-1]) == size
        ok, out = m.returns(lambda: m.call(img.read, box=box, cache=cache), "reads", log=log)
        if not ok:
            return
        if size not in ref:
            ok, whole = m.returns(lambda: _image(path, *size).read(), "reads-resized", size=size)
            if not ok:
                return
            m.must(whole.shape == (size[1], size[0]) + a.shape[2:], "resized-shape", shape=whole.shape, size=size)
            jpeg or _resized(m, a, whole)
            ref[size] = whole
        e = ref[size] if box is None else ref[size][box[1] : box[3], box[0] : box[2]]
        m.equal(np.asarray(out), e, "pixels", log=log, size=size)
        m.equal(out.dtype, a.dtype, "pixel-type")
        reads += 1
        m.count("reads")
        m.count("windows read directly", box is not None and not cache and not had)
        m.count("windows read from cache", box is not None and (cache or had))
        m.count("reads after resize", size != (nx, ny))
        m.count("resized windows read directly", size != (nx, ny) and box is not None and not cache and not had)
        if cache:
            m.check(img.array is not None and np.array_equal(img.array, ref[size]), "cached-image", log=log)
        elif not had:
            m.check(img.array is None or tuple(img.array.shape[:2][::-1]) != size, "not-cached-unless-asked", log=log)
    m.case(log=log)
    if reads < 2:
        m.trivial()


def _resized(m, a, out):
    """Each pixel is within the range of the source pixels near it."""
    b, o = (v.reshape(v.shape[0], v.shape[1], -1).astype(float) for v in (a, out))
    ry, rx = b.shape[0] / o.shape[0], b.shape[1] / o.shape[1]
    for i in range(o.shape[0]):
        y0, y1 = int(np.floor(i * ry - 1)), int(np.ceil((i + 1) * ry + 1))
        rows = b[max(y0, 0) : y1]
        for j in range(o.shape[1]):
            x0, x1 = int(np.floor(j * rx - 1)), int(np.ceil((j + 1) * rx + 1))
            near = rows[:, max(x0, 0) : x1]
            if not (np.all(o[i, j] >= near.min(axis=(0, 1)) - 1e-3) and np.all(o[i, j] <= near.max(axis=(0, 1)) + 1e-3)):
                m.fail("resized-pixels", at=(i, j), got=o[i, j], source=near)
                return
    m.count("judged:resized-pixels")


@workload(quick=150, thorough=2500)
def writing(rng, m):
    nx, ny = (int(v) for v in rng.integers(1, 40, 2))
    a = _pixels(rng, nx, ny)
    img = _image(_file(rng, a), nx, ny)
    given = None
    if rng.random() < 0.4:
        given = _pixels(rng, *(int(v) for v in rng.integers(1, 30, 2)))
    elif rng.random() < 0.4 and min(nx, ny) > 3:
        img.cam.imgsz = (nx // 2, ny // 2)
    if rng.random() < 0.3:
        img.read()
    e = given if given is not None else np.array(img.read(cache=False))
    driver = None
    d = scratch()
    name = gen.pick(rng, ("a.tif", "a.tiff", "a.png", "A.PNG", "a.dat"))
    if name == "a.dat":
        driver = gen.pick(rng, ("GTiff", "PNG"))
    if e.dtype == np.float32 and ("png" in name.lower() or driver == "PNG"):
        name, driver = "a.tif", None
    path = os.path.join(d, name)
    m.case(shape=e.shape, dtype=e.dtype, given=given is not None, name=name, driver=driver)
    if rng.random() < 0.3:
        _write(path if name.endswith(".tif") else os.path.join(d, "o.png"), _pixels(rng, 50, 50))
    m.call(img.write, path, array=given, driver=driver)
    ds = gdal.Open(path)
    m.must(ds is not None, "file-is-written", path=path)
    got = np.dstack([ds.GetRasterBand(i + 1).ReadAsArray() for i in range(ds.RasterCount)])
    m.equal(got, e if e.ndim == 3 else e[:, :, None], "written-pixels")
    m.equal(got.dtype, e.dtype, "written-type")
    if driver:
        m.equal(ds.GetDriver().ShortName, driver, "written-format")
    back = _image(path, e.shape[1], e.shape[0]).read()
    m.equal(np.asarray(back), e, "write-then-read")
    m.count("written files")


def bilinear(b, uv):
    x, y = np.clip(uv[:, 0] - 0.5, 0, b.shape[1] - 1), np.clip(uv[:, 1] - 0.5, 0, b.shape[0] - 1)
    j, i = np.minimum(x.astype(int), max(b.shape[1] - 2, 0)), np.minimum(y.astype(int), max(b.shape[0] - 2, 0))
    fx, fy = (x - j)[:, None], (y - i)[:, None]
    j1, i1 = np.minimum(j + 1, b.shape[1] - 1), np.minimum(i + 1, b.shape[0] - 1)
    return (b[i, j] * (1 - fx) + b[i, j1] * fx) * (1 - fy) + (b[i1, j] * (1 - fx) + b[i1, j1] * fx) * fy


@workload(quick=200, thorough=3000)
def projections(rng, m):
    nx, ny = (int(v) for v in rng.integers(2, 40, 2))
    a = _pixels(rng, nx, ny, smooth=rng.random() < 0.5)
    path = _file(rng, a)
    f = nx * rng.uniform(0.7, 3, 2)
    view = np.array(gen.viewdir(rng), dtype=float)
    xyz = rng.normal(0, 100, 3)
    kw = {"k": (float(rng.normal(0, 0.02)),)} if rng.random() < 0.3 else {}
    src = Camera(imgsz=(nx, ny), f=f, viewdir=view, xyz=xyz, c=rng.normal(0, 1, 2), **kw)
    img = Image(path, cam=src, datetime=T0)
    kind = gen.pick(rng, ("same", "shift", "turn", "turn", "zoom", "away"))
    tgt = src.copy()
    if kind == "shift":
        s = rng.integers(-5, 6, 2)
        w = rng.integers(2, 45, 2) if rng.random() < 0.6 else np.array((nx, ny))
        tgt = Camera(imgsz=w, f=f, viewdir=view, xyz=xyz, c=src.c + src.imgsz / 2 - w / 2 + s, **kw)
    elif kind == "turn":
        tgt.viewdir = view + rng.normal(0, 8, 3)
    elif kind == "zoom":
        w = rng.integers(2, 45, 2)
        tgt = Camera(imgsz=w, f=f * rng.uniform(0.3, 3), viewdir=view + rng.normal(0, 3, 3), xyz=xyz)
    elif kind == "away":
        tgt.viewdir = (view[0] + 180, -view[1], view[2])
    method = gen.pick(rng, ("linear", "nearest"))
    if rng.random() < 0.15:
        bad = tgt.copy()
        bad.xyz = xyz + np.array(((0, 0, 1), (1e-3, 0, 0), (0, -5, 0))[rng.integers(3)])
        m.raises(ValueError, lambda: img.project(bad), "rejects-other-positions")
    m.case(kind=kind, method=method, shape=a.shape, dtype=a.dtype, src=src.to_array(), tgt=tgt.to_array())
    v0 = (src.to_array(), tgt.to_array())
    out = np.asarray(m.call(img.project, tgt, method=method))
    m.check(np.array_equal(v0[0], src.to_array()) and np.array_equal(v0[1], tgt.to_array()), "cameras-unchanged")
    w = tgt.imgsz
    b = a.reshape(ny, nx, -1)
    m.must(out.reshape(out.shape[0], out.shape[1], -1).shape == (w[1], w[0], b.shape[2]), "projected-shape", shape=out.shape)
    m.equal(out.dtype, a.dtype, "projected-type")
    out = out.reshape(w[0] * w[1], -1).astype(float)
    v, u = np.mgrid[0 : w[1], 0 : w[0]] + 0.5
    uv = src.xyz_to_uv(tgt.uv_to_xyz(np.column_stack((u.ravel(), v.ravel()))), directions=True)
    lo, hi = np.array((0.5, 0.5)), np.array((nx - 0.5, ny - 0.5))
    inside = np.all((uv > lo + 1e-6) & (uv < hi - 1e-6), axis=1)
    outside = ~np.all((uv > lo - 1e-6) & (uv < hi + 1e-6), axis=1)
    b = b.astype(float)
    if inside.any():
        p, o = uv[inside], out[inside]
        if method == "linear":
            # Integers may be truncated or rounded
            tol = 1.001 if a.dtype.kind == "u" else 1e-3
            m.close(o, bilinear(b, p), "projected-pixels", rtol=1e-5, atol=tol)
        else:
            q = p - 0.5
            clear = np.all(np.abs(q - np.floor(q) - 0.5) > 1e-6, axis=1)
            i = np.floor(p[clear]).astype(int)
            m.close(o[clear], b[i[:, 1], i[:, 0]], "projected-pixels-nearest", rtol=0, atol=0)
        if kind in ("same", "shift"):
            i = np.round(p - 0.5).astype(int)
            m.close(o, b[i[:, 1], i[:, 0]], "shifted-by-whole-pixels", rtol=1e-4, atol=1 if a.dtype.kind == "u" and method == "linear" else 1e-2)
    if outside.any():
        o = out[outside]
        m.check(np.isnan(o) if a.dtype.kind == "f" else o == 0, "nothing-outside-the-source", kind=kind)
    m.count("projected pixels", inside.sum())
    m.count("pixels outside the source", outside.sum())


MAKES = (("NIKON CORPORATION", "NIKON D200", (23.6, 15.8)), ("Canon", "Canon EOS 20D", (22.5, 15.0)), ("NIKON", "E8700", (8.8, 6.6)), ("Acme", "X", None))


def _jpeg(rng, name="x.jpg"):
    nx, ny = (int(v) for v in rng.integers(8, 60, 2))
    path = os.path.join(scratch(), name)
    cv2.imwrite(path, rng.integers(0, 256, (ny, nx, 3)).astype("u1"))
    make, model, sensorsz = gen.pick(rng, MAKES)
    t = T0 + datetime.timedelta(microseconds=int(rng.integers(0, 10**15)))
    fmm = (int(rng.integers(10, 400)), 10)
    tags = {"0th": {piexif.ImageIFD.Make: make.encode(), piexif.ImageIFD.Model: model.encode()}, "Exif": {
        piexif.ExifIFD.PixelXDimension: nx, piexif.ExifIFD.PixelYDimension: ny, piexif.ExifIFD.FocalLength: fmm,
        piexif.ExifIFD.DateTimeOriginal: t.strftime("%Y:%m:%d %H:%M:%S").encode(), piexif.ExifIFD.SubSecTimeOriginal: t.strftime("%f").encode()}}
    piexif.insert(piexif.dump(tags), path)
    return path, dict(imgsz=(nx, ny), fmm=fmm[0] / 10, sensorsz=sensorsz, datetime=t)


@workload(quick=300, thorough=4000)
def constructors(rng, m):
    path, meta = _jpeg(rng)
    exif, source = None, meta
    if rng.random() < 0.3:
        other, source = _jpeg(rng, "y.jpg")
        exif = Exif(other)
    args = {}
    if rng.random() < 0.5:
        args["imgsz"] = tuple(int(v) for v in rng.integers(5, 100, 2))
    focal = gen.pick(rng, ("none", "f", "fmm"))
    if focal == "f":
        args["f"] = tuple(rng.uniform(10, 100, 2))
    elif focal == "fmm":
        args["fmm"] = float(rng.uniform(5, 50))
    if rng.random() < 0.4 or source["sensorsz"] is None:
        args["sensorsz"] = tuple(rng.uniform(5, 30, 2))
    if rng.random() < 0.3:
        args[gen.pick(rng, ("c", "cmm"))] = tuple(rng.normal(0, 0.1, 2))
    if "cmm" in args and "f" in args and "imgsz" in args:
        args.setdefault("sensorsz", (20.0, 15.0))  # complete without metadata, which is then not read
    if rng.random() < 0.5:
        args["xyz"] = tuple(rng.normal(0, 10, 3))
        args["viewdir"] = tuple(rng.normal(0, 30, 3))
    if rng.random() < 0.3:
        args["k"] = (0.1, -0.02)
    when = T0 if rng.random() < 0.4 else None
    as_camera = rng.random() < 0.15
    m.case(cam=args, datetime=when, exif=source if exif else None, file=meta, as_camera=as_camera)
    m.count("cameras with one focal length argument", focal == "f" or (focal == "fmm" and "imgsz" not in args and "sensorsz" in args))
    full = dict(args)
    for k in ("imgsz", "sensorsz"):
        full.setdefault(k, source[k])
    if "f" not in full:
        full.setdefault("fmm", source["fmm"])
    expected = Camera(**full)
    cam = expected if as_camera else (None if not args and rng.random() < 0.5 else args)
    ok, img = m.returns(lambda: m.call(Image, path, cam=cam, datetime=when, exif=exif), "constructs")
    if not ok:
        return
    a, e = img.cam.to_array(), expected.to_array()
    if focal == "f":
        # Sensor size may be left out when focal length is in pixels
        keep = np.ones(a.shape, bool) if np.array_equal(np.isnan(a), np.isnan(e)) else ~(np.isnan(a) | np.isnan(e))
        a, e = a[keep], e[keep]
    m.close(a, e, "camera", rtol=1e-12, atol=1e-12)
    m.equal(img.datetime, when or source["datetime"], "datetime")
    m.equal(img.path, path, "path")
    m.check(img.array is None, "nothing-cached-at-first")
    m.equal(tuple(img.size), tuple(expected.imgsz), "size")
    m.count("cameras")
    if as_camera:
        m.check(img.cam is cam or np.array_equal(img.cam.to_array(), cam.to_array(), equal_nan=True), "camera")
    # Everything provided: the file is not needed
    ok, img = m.returns(lambda: Image(os.path.join(scratch(), "missing.jpg"), cam=expected, datetime=T0), "needs-no-file")
    ok and m.check(img.exif is None, "metadata-not-read")
    # Delegation to the camera
    uv = rng.uniform(-5, 60, (6, 2))
    rays = img.cam.uv_to_xyz(uv, directions=True) if ok else None
    if ok:
        p = img.uv_to_xyz(uv)
        m.close(p, rays + img.cam.xyz, "absolute-coordinates-by-default", rtol=1e-9, atol=1e-9)
        m.close(img.uv_to_xyz(uv, directions=True), rays, "ray-directions")
        m.close(img.xyz_to_uv(p), img.cam.xyz_to_uv(p), "projects-by-camera")
        m.equal(img.inbounds(uv), np.all((uv >= 0) & (uv <= img.cam.imgsz), axis=1), "inbounds")


@workload(quick=20, thorough=150)
def plots(rng, m):
    nx, ny = (int(v) for v in rng.integers(2, 40, 2))
    a = _pixels(rng, nx, ny)
    if a.dtype != np.uint8:
        a = (a % 250).astype("u1")
    img = _image(_file(rng, a), nx, ny)
    if rng.random() < 0.5:
        img.cam.resize(2)
    m.case(shape=a.shape, size=img.size)
    w, h = (int(v) for v in img.cam.imgsz)
    try:
        im = img.plot(**({"interpolation": "nearest"} if rng.random() < 0.5 else {}))
        m.equal(tuple(im.get_extent()), (0, w, h, 0), "plot-extent")
        m.equal(np.asarray(im.get_array()), img.read(), "plot-pixels")
        e = (float(w), 0.0, 0.0, float(h))
        m.equal(tuple(float(v) for v in img.plot(extent=e).get_extent()), e, "plot-extent-given")
        ax = plt.gca()
        ax.set_xlim(-5, 1)
        ax.set_ylim(3, 9)
        img.set_plot_limits()
        m.equal((ax.get_xlim(), ax.get_ylim()), ((0, w), (h, 0)), "plot-limits")
        m.count("plots")
    finally:
        plt.close("all")
