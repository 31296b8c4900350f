import datetime
import os

import numpy as np
from osgeo import gdal, osr
from gmon import META, workload, gen, gridops as go, scratch
from glimpse import Grid, Raster, helpers

META["rule"] = (
    "A case writes a random raster (data type, axis directions, missing values, no-data value, "
    "bands, format, coordinate system) and reads it back whole, in part or coarser, or runs a "
    "random sequence of windowed/whole, cached/uncached, failing and cache-clearing reads on one "
    "opened raster; every value is checked against the array written. Distinct by file and history."
)
META["require"] = {"files": 800, "reads": 3000, "windowed uncached reads": 300, "failed reads": 300, "missing values": 1000, "coarser reads": 150, "whole numbers to the limits of their type": 30}
META["assumptions"] = ["coarser reads are judged to within one source cell of the target cell centre"]

DTYPES = (np.uint8, np.uint16, np.int16, np.int32, np.uint32, np.float32, np.float64)


def _array(rng, nx, ny, dtype=None):
    """Mostly unique values."""
    dt = np.dtype(dtype or gen.pick(rng, DTYPES))
    a = rng.permutation(nx * ny).reshape(ny, nx)
    if dt.kind == "u":
        a = a % 250
    if dt.kind == "i":
        a = a - 20
    a = a.astype(dt)
    if dt.kind == "f":
        a = a + dt.type(rng.integers(0, 4) / 4)
        if rng.random() < 0.6:
            a[rng.random(a.shape) < 0.25] = np.nan
    return a.astype(dt)


def _file(rng, lo=1, hi=16, dtype=None, ext=None):
    nx, ny = int(rng.integers(lo, hi)), int(rng.integers(lo, hi))
    lim = [go.random_lim(rng, nx), go.random_lim(rng, ny)]
    ext = ext or gen.pick(rng, (".tif", ".tif", ".tif", ".img"))
    if ext == ".img":
        # the format holds north-up rasters only
        lim = [tuple(sorted(lim[0])), tuple(sorted(lim[1]))[::-1]]
    a = _array(rng, nx, ny, dtype)
    crs = gen.pick(rng, (None, 32606, 3995))
    r = Raster(a.copy(), x=lim[0], y=lim[1], crs=crs)
    M = go.Model(lim, (nx, ny), a, crs=crs)
    path = os.path.join(scratch(), "r" + ext)
    return r, M, path


def _same_crs(wkt, epsg):
    s, t = osr.SpatialReference(), osr.SpatialReference()
    s.ImportFromWkt(wkt)
    t.ImportFromEPSG(epsg)
    return bool(s.IsSame(t)) or s.GetAuthorityCode(None) == str(epsg)


@workload(quick=500, thorough=8000)
def round_trip(rng, m):
    r, M, path = _file(rng)
    a = M.array
    kw = {}
    nodata = None
    if rng.random() < 0.5:
        nodata = gen.pick(rng, (-9999, 0, 255, -1.5, 7) if a.dtype.kind == "f" else (0, 3, 200))
        kw["nan"] = nodata
        if a.dtype.kind == "f":
            a = a.copy()
            a[a == nodata] = 1.25
            r.array = a.copy()
    if rng.random() < 0.2:
        kw["driver"] = "GTiff" if path.endswith("tif") else "HFA"
    m.case(lim=M.lim, n=M.n, array=a, crs=M.crs, kw=kw)
    m.call(r.write, path, **kw)
    m.count("files")
    m.equal(np.asarray(r.array), a, "write-changes-nothing")
    # what is in the file
    ds = gdal.Open(path)
    raw = ds.GetRasterBand(1).ReadAsArray()
    want = a.copy()
    if nodata is not None and a.dtype.kind == "f":
        want[np.isnan(a)] = nodata
    m.equal(raw, want, "values-in-file")
    m.check(raw.dtype == a.dtype, "dtype-in-file", got=raw.dtype, want=a.dtype)
    ds = None
    t = datetime.datetime(2014, 1, 2, 3)
    o = Raster.open(path, datetime=t)
    m.check(o.datetime == t, "datetime-kept")
    ok = go.judge_geometry(m, o, M, "unread")
    m.count("missing values", np.isnan(a.astype(float)).sum())
    m.equal(np.asarray(o.array), a, "values", nodata=nodata)
    m.check(np.asarray(o.array).dtype == a.dtype, "dtype", got=o.array.dtype, want=a.dtype)
    ok &= go.judge_geometry(m, o, M, "reopened")
    if M.crs:
        m.check(o.crs and _same_crs(o.crs, M.crs), "crs", got=o.crs, want=M.crs)
    else:
        m.check(not o.crs, "no-crs", got=o.crs)
    m.count("reads")
    # and once more, overwriting
    if rng.random() < 0.3:
        o.write(path)
        p = Raster.open(path)
        m.equal(np.asarray(p.array), a, "second-round-trip")
        go.judge_geometry(m, p, M, "second-round-trip")
        if M.crs:
            m.check(p.crs and _same_crs(p.crs, M.crs), "second-crs", got=p.crs)
    if rng.random() < 0.2:
        # what is asked for wins over what the raster holds
        other = gen.pick(rng, (32607, 32633))
        r.write(path, crs=other)
        p = Raster.open(path)
        m.check(p.crs and _same_crs(p.crs, other), "crs-asked-for", got=p.crs, want=other)
        m.equal(np.asarray(p.array), a, "crs-asked-for-values")
        m.check(r.crs == M.crs, "crs-of-raster-kept")


@workload(quick=200, thorough=3000)
def opened_nan(rng, m):
    """A value to read as missing, of any type; and bands of one file."""
    nx, ny = int(rng.integers(1, 12)), int(rng.integers(1, 12))
    dt = gen.pick(rng, DTYPES)
    nb = int(rng.integers(1, 4))
    A = np.dstack([_array(rng, nx, ny, dt) for _ in range(nb)])
    b = int(rng.integers(nb))
    if np.dtype(dt).kind in "iu" and np.dtype(dt).itemsize >= 2 and rng.random() < 0.4:
        # Whole numbers to the limits of their type
        lim = np.iinfo(dt)
        lim = (max(lim.min, -(2**53)), min(lim.max, 2**53))
        A = rng.integers(lim[0], lim[1], A.shape, endpoint=True).astype(dt)
        m.count("whole numbers to the limits of their type")
    v = A[int(rng.integers(ny)), int(rng.integers(nx)), b]
    nan = gen.pick(rng, (0, float(v) if np.isfinite(float(v)) else 0, 3))
    path = os.path.join(scratch(), "b.tif")
    m.case(array=A, band=b + 1, nan=nan)
    m.call(helpers.write_raster, A if nb > 1 else A[:, :, 0], path, transform=(0, 1, 0, 0, 0, 1))
    m.count("files")
    o = Raster.open(path, band=b + 1, nan=nan)
    want = A[:, :, b].astype(float)
    want[want == nan] = np.nan
    m.count("missing values", np.isnan(want).sum())
    m.count("reads")
    box = None
    if rng.random() < 0.5:
        box, sl = _box(rng, nx, ny)
        m.equal(np.asarray(o.read(box=box, cache=False)).astype(float), want[sl], "window-with-nan")
    m.equal(np.asarray(o.read()).astype(float), want, "read-with-nan")
    m.check(np.asarray(o.array).dtype.kind == "f", "cast-to-float")


def _box(rng, nx, ny):
    x = np.sort(rng.integers(0, nx + 1, 2))
    y = np.sort(rng.integers(0, ny + 1, 2))
    x = x if x[1] > x[0] else np.array([0, nx])
    y = y if y[1] > y[0] else np.array([0, ny])
    box = [int(v) for v in (x[0], y[0], x[1], y[1])]
    return gen.pick(rng, (list, tuple, np.array))(box), (slice(box[1], box[3]), slice(box[0], box[2]))


@workload(quick=500, thorough=8000)
def reads(rng, m):
    """Any sequence of reads returns slices of the same array."""
    r, M, path = _file(rng, dtype=gen.pick(rng, (None, np.float32, np.float64)))
    kw = {"nan": -9999} if rng.random() < 0.3 and M.array.dtype.kind == "f" else {}
    r.write(path, **kw)
    m.count("files")
    o_kw = {}
    if rng.random() < 0.5:
        bx, c0, c1 = go.crop_box(rng, M, 0)
        by, r0, r1 = go.crop_box(rng, M, 1)
        o_kw = {"xlim": bx, "ylim": by}
        M = go.crop_model(M, (c0, c1), (r0, r1))
    d = None
    if rng.random() < 0.3:
        d = float(rng.uniform(0.6, 3)) * abs(M.d(0))
        o_kw["d"] = d
    o = m.call(Raster.open, path, **o_kw)
    if d:
        # one uncached read of everything defines the values
        full = np.array(Raster.open(path, **o_kw).read())
        M = go.Model(M.lim, full.shape[::-1], full)
        m.count("coarser reads")
    full = M.array
    nx, ny = M.n
    hist = []
    for _ in range(int(rng.integers(1, 9))):
        what = gen.pick(rng, ("window", "window", "window", "whole", "array", "bad", "float", "clear", "gone", "sample", "geometry"))
        cache = bool(rng.random() < 0.4)
        box, sl = _box(rng, nx, ny)
        hist.append((what, cache, list(box)))
        m.case(lim=M.lim, n=M.n, array=full, opened=o_kw, history=hist)
        if what == "window":
            got = m.call(o.read, box=box, cache=cache)
            m.equal(np.array(got), full[sl], "window", history=hist, d=d)
            m.check(np.asarray(got).dtype == full.dtype, "window-dtype", got=got.dtype)
            if not cache:
                m.count("windowed uncached reads")
        elif what == "whole":
            m.equal(np.array(o.read(cache=cache)), full, "whole", history=hist)
        elif what == "array":
            m.equal(np.array(o.array), full, "array", history=hist)
        elif what == "clear":
            o.array = None
        elif what == "bad":
            bad = [int(v) for v in box]
            k = int(rng.integers(4))
            bad[k] = (-1, -1, nx + 1, ny + 1)[k]
            m.raises(ValueError, lambda: o.read(box=bad, cache=cache), "out-of-bounds-raises", box=bad, n=M.n)
            m.count("failed reads")
        elif what == "float":
            m.raises(ValueError, lambda: o.read(box=[float(v) for v in box], cache=cache), "float-box-raises")
            m.count("failed reads")
        elif what == "gone":
            # the file is not there for a while
            os.rename(path, path + ".away")
            try:
                got = np.array(o.read(box=box, cache=cache))
                m.equal(got, full[sl], "read-without-file", history=hist)
            except Exception:
                m.count("failed reads")
            finally:
                os.rename(path + ".away", path)
        elif what == "sample" and min(M.n) > 1:
            i, j = int(rng.integers(ny)), int(rng.integers(nx))
            got = o.sample(np.array([[M.centers(0)[j], M.centers(1)[i]]]), order=0)
            m.equal(np.asarray(got, float), np.asarray([full[i, j]], float), "sample", history=hist)
        elif what == "geometry":
            go.judge_geometry(m, o, M, "geometry", history=hist)
        m.count("reads")
    m.equal(np.array(o.array), full, "array-at-last", history=hist)
    go.judge_geometry(m, o, M, "geometry-at-last", history=hist)
    # the file itself is never written
    m.equal(np.array(Raster.open(path, **o_kw).array), full, "file-unchanged")


@workload(quick=200, thorough=3000)
def coarser(rng, m):
    """Values read at another cell size come from the right place."""
    r, M, path = _file(rng, lo=3, hi=30, dtype=np.float64)
    a = np.arange(M.n[0] * M.n[1], dtype=float).reshape(M.n[1], M.n[0])
    r.array = a.copy()
    r.write(path)
    m.count("files")
    d = float(rng.uniform(0.4, 4)) * abs(M.d(0))
    bx, c0, c1 = go.crop_box(rng, M, 0)
    by, r0, r1 = go.crop_box(rng, M, 1)
    N = go.crop_model(M, (c0, c1), (r0, r1))
    m.case(lim=M.lim, n=M.n, d=d, box=(bx, by))
    o = Raster.open(path, d=d, xlim=bx, ylim=by)
    z = np.asarray(o.array)
    want = [int(np.ceil(abs(N.n[j] * N.d(j)) / d - 1e-6)) for j in range(2)]
    m.must(all(w <= k <= w + 1 for k, w in zip(z.shape[::-1], want)), "cell-count", got=z.shape, want=want)
    m.count("reads")
    m.count("coarser reads")
    rows, cols = (z // M.n[0]).astype(int), (z % M.n[0]).astype(int)
    T = go.Model(N.lim, z.shape[::-1])
    ex = np.abs(M.centers(0)[cols] - T.centers(0)[None, :]) / abs(M.d(0))
    ey = np.abs(M.centers(1)[rows] - T.centers(1)[:, None]) / abs(M.d(1))
    m.check((ex <= 1.01).all() and (ey <= 1.01).all(), "resampled-in-place", ex=ex.max(), ey=ey.max(), z=z)


@workload(quick=60, thorough=600)
def copy_formats(rng, m):
    """Formats which are written as a copy (PNG) and failures to write."""
    nx, ny = int(rng.integers(1, 12)), int(rng.integers(1, 12))
    a = rng.integers(0, 255, (ny, nx)).astype(gen.pick(rng, (np.uint8, np.uint16)))
    folder = scratch()
    path = os.path.join(folder, "r.png")
    m.case(array=a)
    helpers.write_raster(a, path)
    m.count("files")
    m.equal(np.asarray(Raster.open(path).array), a, "png-values")
    m.raises(ValueError, lambda: helpers.write_raster(a, os.path.join(folder, "r.unknown")), "unknown-format")
    m.raises(ValueError, lambda: helpers.write_raster(a, os.path.join(folder, "r.tif"), driver="nope"), "unknown-driver")
    m.raises(ValueError, lambda: helpers.write_raster(a.astype("U3"), os.path.join(folder, "s.tif")), "unsupported-dtype")


FORMATS = {
    ".tif": "GTiff", ".tiff": "GTiff", ".img": "HFA", ".asc": "AAIGrid", ".bil": "EHdr", ".bmp": "BMP", ".gif": "GIF", ".png": "PNG",
    ".rst": "RST",
}


@workload(quick=80, thorough=800)
def formats(rng, m):
    """The format follows from the extension, and the reference system from any of its forms."""
    ext = gen.pick(rng, sorted(FORMATS))
    nx, ny = int(rng.integers(2, 12)), int(rng.integers(2, 12))
    a = rng.integers(0, 255, (ny, nx)).astype(np.uint8)
    # Some formats require square cells
    d = float(gen.pick(rng, (0.5, 1, 2, 10)))
    x0, y0 = (float(v) for v in rng.integers(-1000, 1000, 2) * d)
    epsg = int(gen.pick(rng, (32606, 3995, 4326)))
    s = osr.SpatialReference()
    s.ImportFromEPSG(epsg)
    kind = gen.pick(rng, ("none", "epsg", "wkt", "proj4"))
    crs = {"none": None, "epsg": epsg, "wkt": s.ExportToWkt(), "proj4": s.ExportToProj4()}[kind]
    path = os.path.join(scratch(), "r" + (ext.upper() if rng.random() < 0.3 else ext))
    m.case(array=a, path=os.path.basename(path), d=d, corner=(x0, y0), crs=kind, epsg=epsg)
    r = Raster(a, x=(x0, x0 + nx * d), y=(y0, y0 - ny * d), crs=crs)
    ok, _ = m.returns(lambda: r.write(path), "write/" + ext)
    if not ok:
        return
    m.count("files")
    m.count("formats")
    ds = gdal.Open(path)
    m.must(ds is not None, "opens")
    m.equal(ds.GetDriver().ShortName, FORMATS[ext], "format-of-extension", ext=ext)
    m.equal(ds.ReadAsArray(), a, "values-in-file", ext=ext)
    m.close(ds.GetGeoTransform(), (x0, d, 0, y0, 0, -d), "geometry-in-file", rtol=1e-9, atol=1e-9)
    if ext in (".tif", ".tiff"):
        wkt = ds.GetProjection()
        if crs is None:
            m.check(not wkt, "no-crs-in-file", got=wkt)
        else:
            t = osr.SpatialReference()
            t.ImportFromWkt(wkt)
            p, q = (np.array(v.ExportToProj4().split()) for v in (s, t))
            m.check(set(p) - {"+type=crs"} == set(q) - {"+type=crs"}, "crs-in-file", got=q, want=p)
    ds = None
    if ext in (".tif", ".tiff") and crs is not None:
        # A file with a reference system, but no position; or the reverse
        other = os.path.join(scratch(), "other.tif")
        m.call(helpers.write_raster, a, other, crs=crs)
        ds = gdal.Open(other)
        t = osr.SpatialReference()
        t.ImportFromWkt(ds.GetProjection())
        q = np.array(t.ExportToProj4().split())
        m.check(set(s.ExportToProj4().split()) - {"+type=crs"} == set(q) - {"+type=crs"}, "crs-without-position", got=q)
        m.equal(ds.ReadAsArray(), a, "values-without-position")
        ds = None
    o = Raster.open(path)
    m.equal(np.asarray(o.array), a, "values")
    m.close((*o.xlim, *o.ylim), (x0, x0 + nx * d, y0, y0 - ny * d), "limits", rtol=1e-9, atol=1e-9)
    if crs is not None:
        # An unread raster keeps the reference system as given
        m.equal(r.crs, crs, "crs-kept")
    bad = os.path.join(os.path.dirname(path), gen.pick(rng, ("plain", "r.h5", "r.shp", "tif", "r.")))
    m.raises(ValueError, lambda: helpers.write_raster(a, bad), "no-writable-format", path=os.path.basename(bad))
    m.raises(ValueError, lambda: helpers.crs_to_wkt(gen.pick(rng, ("EPSG", "4326", 4326.0, None))), "not-a-crs")
