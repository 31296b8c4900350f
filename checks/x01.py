import io
import os
import cv2
import matplotlib.pyplot as plt
import numpy as np
import scipy.optimize
from gmon import META, workload, gen, scratch
from gmon.refcam import RefCam
from glimpse import Camera
from glimpse.convert import Converter
from glimpse.convert.cameras import Agisoft, Matlab, OpenCV, PhotoModeler

META["rule"] = (
    "A case is a random camera or external calibration (coefficient pattern, image size, sensor size) that is converted in both "
    "directions, exactly or by optimization of a random choice of parameters, or a calibration file in the vendor's format. The "
    "oracle is each vendor's published projection formula written out independently, cv2.projectPoints for OpenCV, and a separate "
    "least-squares fit. Non-trivial if the camera has any distortion or offset."
)
META["require"] = {
    "exact conversions": 800, "fitted conversions": 200, "residual sets": 400, "files": 300, "points": 20000,
    "chosen parameters": 60, "single-index choices": 15, "unoptimized": 80, "rejected": 40, "projected by OpenCV": 100,
}
META["assumptions"] = [
    "distortion is invertible over the frame", "fits are compared by the sum of squared residuals at the requested points",
]


# ---- vendor formulas ----
def agisoft(c, xy):
    out = []
    for x, y in np.asarray(xy, dtype=float):
        r2 = x * x + y * y
        s = 1 + c.k1 * r2 + c.k2 * r2**2 + c.k3 * r2**3 + c.k4 * r2**4
        xd = x * s + c.p1 * (r2 + 2 * x * x) + 2 * c.p2 * x * y
        yd = y * s + c.p2 * (r2 + 2 * y * y) + 2 * c.p1 * x * y
        out.append((c.imgsz[0] / 2 + c.cx + xd * c.f + xd * c.b1 + yd * c.b2, c.imgsz[1] / 2 + c.cy + yd * c.f))
    return np.array(out)


def matlab(c, xy):
    out = []
    k1, k2, k3, k4, k5 = c.kc
    for x, y in np.asarray(xy, dtype=float):
        r2 = x * x + y * y
        s = 1 + k1 * r2 + k2 * r2**2 + k5 * r2**3
        xd = s * x + 2 * k3 * x * y + k4 * (r2 + 2 * x * x)
        yd = s * y + k3 * (r2 + 2 * y * y) + 2 * k4 * x * y
        # The toolbox puts the center of the first pixel at 0
        out.append((c.fc[0] * (xd + c.alpha_c * yd) + c.cc[0] + 0.5, c.fc[1] * yd + c.cc[1] + 0.5))
    return np.array(out)


def opencv(c, xy):
    out = []
    for x, y in np.asarray(xy, dtype=float):
        r2 = x * x + y * y
        s = (1 + c.k1 * r2 + c.k2 * r2**2 + c.k3 * r2**3) / (1 + c.k4 * r2 + c.k5 * r2**2 + c.k6 * r2**3)
        xd = x * s + 2 * c.p1 * x * y + c.p2 * (r2 + 2 * x * x) + c.s1 * r2 + c.s2 * r2**2
        yd = y * s + c.p1 * (r2 + 2 * y * y) + 2 * c.p2 * x * y + c.s3 * r2 + c.s4 * r2**2
        out.append((c.fx * xd + c.cx, c.fy * yd + c.cy))
    return np.array(out)


def photomodeler(c, uv):
    """Normalized camera coordinates (x right, y down) of image points."""
    out = []
    for u, v in np.asarray(uv, dtype=float):
        x, y = u * c.fw / c.imgsz[0] - c.xp, c.yp - v * c.fh / c.imgsz[1]
        r2 = x * x + y * y
        s = c.k1 * r2 + c.k2 * r2**2 + c.k3 * r2**3
        xc = x + x * s + c.p1 * (r2 + 2 * x * x) + 2 * c.p2 * x * y
        yc = y + y * s + c.p2 * (r2 + 2 * y * y) + 2 * c.p1 * x * y
        out.append((xc / c.focal, -yc / c.focal))
    return np.array(out)


def cam_uv(cam, xy):
    r = RefCam.of(cam)
    x, y = r.distort_xy(*np.asarray(xy, dtype=float).T)
    return np.column_stack((x * r.f[0] + r.imgsz[0] / 2 + r.c[0], y * r.f[1] + r.imgsz[1] / 2 + r.c[1]))


def cam_xy(cam, uv):
    r = RefCam.of(cam)
    return r.undistort(r.xyd_of_uv(uv))


FORWARD = {Agisoft: agisoft, Matlab: matlab, OpenCV: opencv}


def residuals(x, cam, uv):
    if isinstance(x, PhotoModeler):
        return cam_uv(cam, photomodeler(x, uv)) - uv
    return uv - FORWARD[type(x)](x, cam_xy(cam, uv))


def rays(rng, cam, n=40):
    """Normalized coordinates of points in the frame."""
    uv = rng.random((n, 2)) * [int(v) for v in cam.imgsz]
    return uv, cam_xy(cam, uv)


# ---- generators ----
def camera(rng, exact=True, pattern=None, rho=0.3):
    if pattern is None and exact:
        pattern = gen.pick(rng, ("none", "k1", "k12", "k123", "p", "k1p", "k2"))
    a = gen.gentle_camera_args(rng, rho=rho, corr=False, pattern=pattern)
    if max(a["imgsz"]) < 100:
        s = 100 / max(a["imgsz"])
        a["imgsz"] = tuple(max(1, round(v * s)) for v in a["imgsz"])
        a["f"], a["c"] = tuple(v * s for v in a["f"]), tuple(v * s for v in a["c"])
    return a


def xargs(rng, kind, a, extra):
    """Parameters of an external camera much like a camera's, with or without non-exact terms."""
    (w, h), (fx, fy), c, k, p = a["imgsz"], a["f"], a["c"], a["k"], a["p"]
    if kind is Agisoft:
        e = dict(imgsz=(w, h), f=fy, cx=c[0], cy=c[1], k1=k[0], k2=k[1], k3=k[2], p1=p[0], p2=p[1], b1=fx - fy)
        if extra:
            which = rng.integers(1, 4)
            if which & 1:
                e["k4"] = rng.uniform(-1, 1) * 0.05 * (0.5 * w / fx) ** 2
            if which & 2:
                e["b2"] = rng.uniform(-1, 1) * 1e-3 * fx
    elif kind is Matlab:
        e = dict(imgsz=(w, h), fc=(fx, fy), cc=(c[0] + w / 2 - 0.5, c[1] + h / 2 - 0.5), kc=(k[0], k[1], p[0], p[1], k[2]), alpha_c=0.0)
        if extra:
            e["alpha_c"] = rng.uniform(-1, 1) * 1e-3
    elif kind is OpenCV:
        e = dict(imgsz=(w, h), fx=fx, fy=fy, cx=c[0] + w / 2, cy=c[1] + h / 2, p1=p[0], p2=p[1])
        e.update({f"k{i + 1}": k[i] for i in range(6)})
        if extra:
            s = rng.uniform(-1, 1, 4) * 2e-3 * (rng.random(4) < 0.6)
            s[rng.integers(4)] = 1e-3
            e.update({f"s{i + 1}": float(s[i]) for i in range(4)})
    else:
        fw = float(rng.uniform(5, 40))
        fh = fw * h / w * float(rng.uniform(0.95, 1.05))
        e = dict(imgsz=(w, h), focal=fx * fw / w, xp=fw / 2 + c[0] * fw / w, yp=fh / 2 + c[1] * fh / h, fw=fw, fh=fh)
        if extra:
            r = np.hypot(fw, fh) / 2
            which = rng.integers(1, 4)
            if which & 1:
                s = rng.uniform(-1, 1, 3) * 0.02 * (rng.random(3) < 0.7)
                e.update(k1=s[0] / r**2, k2=s[1] / r**4, k3=s[2] / r**6)
            if which & 2:
                e.update(p1=rng.uniform(-1, 1) * 0.003 / r, p2=rng.uniform(-1, 1) * 0.003 / r)
    return {k: v if isinstance(v, tuple) else float(v) for k, v in e.items()}


def fields(x):
    return {k: v for k, v in vars(x).items() if not k.startswith("_")}


KINDS = (Agisoft, Matlab, OpenCV, PhotoModeler)


# ---- workloads ----
@workload(quick=400)
def exact_from_camera(rng, m):
    kind = gen.pick(rng, KINDS)
    pattern = "none" if kind is PhotoModeler else "all" if kind is OpenCV and rng.random() < 0.5 else None
    a = camera(rng, pattern=pattern)
    if kind is PhotoModeler:
        a["sensorsz"] = tuple(float(v) for v in rng.uniform(4, 40, 2))
        f = a.pop("f")
        a["fmm"] = f[0] * a["sensorsz"][0] / a["imgsz"][0]
    cam = Camera(**a)
    m.case(kind=kind.__name__, cam=a)
    if not any(a["k"]) and not any(a["p"]) and not any(a["c"]):
        m.trivial()
    before = cam.to_array()
    x = kind.from_camera(cam)
    m.equal(cam.to_array(), before, "camera-unchanged")
    m.equal(tuple(x.imgsz), tuple(a["imgsz"]), "image-size")
    uv, xy = rays(rng, cam)
    scale = max(a["imgsz"])
    m.count("points", len(uv))
    m.close(residuals(x, cam, uv), np.zeros(uv.shape), f"{kind.__name__}-exact", atol=1e-7 * scale, x=fields(x))
    # ... and back
    back = x.to_camera()
    m.close(cam_uv(back, xy), uv, f"{kind.__name__}-round-trip", atol=1e-7 * scale, x=fields(x))
    for key in ("f", "c", "k", "p"):
        m.close(getattr(back, key), getattr(cam, key), f"round-trip-{key}", rtol=1e-9, atol=1e-9 * scale)
    m.equal(tuple(int(v) for v in back.imgsz), tuple(a["imgsz"]), "round-trip-size")
    # The actual camera maps pixels to the same rays
    if rng.random() < 0.3:
        level = Camera(**{**a, "viewdir": (0, 0, 0), "xyz": (0, 0, 0)})
        d = level.uv_to_xyz(uv)
        m.close(np.column_stack((d[:, 0], -d[:, 2])) / d[:, 1:2], xy, "rays", atol=1e-3)
    # Optimization is neither needed nor performed
    y = kind.from_camera(cam) if kind is OpenCV else kind.from_camera(cam, optimize=bool(rng.integers(2)))
    for key, value in fields(x).items():
        m.close(getattr(y, key), value, "exact-not-optimized", rtol=1e-9, atol=1e-9)
    m.count("exact conversions")


@workload(quick=400)
def exact_to_camera(rng, m):
    kind = gen.pick(rng, KINDS)
    a = camera(rng, pattern="all" if kind is OpenCV and rng.random() < 0.5 else None)
    e = xargs(rng, kind, a, extra=False)
    if kind is OpenCV and rng.random() < 0.1:
        del e["cx"], e["cy"]
    x = kind(**e)
    m.case(kind=kind.__name__, x=e)
    before = fields(x)
    if rng.random() < 0.5:
        cam = x.to_camera()
    else:
        cam = x.to_camera(optimize=gen.pick(rng, (True, False, {"k": True}, {"f": [0], "c": 1})), uv=int(rng.integers(4, 100)))
    m.equal(fields(x), before, "external-unchanged")
    m.equal(tuple(int(v) for v in cam.imgsz), e["imgsz"], "image-size")
    scale = max(e["imgsz"])
    uv, xy = rays(rng, cam)
    m.count("points", len(uv))
    m.close(residuals(x, cam, uv), np.zeros(uv.shape), f"{kind.__name__}-exact", atol=1e-7 * scale)
    if kind is PhotoModeler:
        m.close(cam.sensorsz, (e["fw"], e["fh"]), "sensor-size")
        m.close(cam.fmm, (e["focal"],) * 2, "focal-length")
    if kind is Matlab:
        # Principal point of a perfectly centered calibration is the middle of the image
        y = Matlab(**{**e, "cc": ((e["imgsz"][0] - 1) / 2, (e["imgsz"][1] - 1) / 2)})
        m.close(y.to_camera().c, (0, 0), "centered")
        m.close(Matlab(**{k: v for k, v in e.items() if k != "cc"}).to_camera().c, (0, 0), "centered-by-default")
    if kind is OpenCV:
        # A corner of the image is a place too
        y = OpenCV(**{**e, "cx": 0, "cy": 0.0}).to_camera(optimize=False)
        m.close(y.c, -np.array(e["imgsz"]) / 2, "corner")
        y = OpenCV(**{k: v for k, v in e.items() if k not in ("cx", "cy")}).to_camera(optimize=False)
        m.close(y.c, (0, 0), "centered-by-default")
    back = kind.from_camera(cam)
    for key, value in fields(back).items():
        m.close(value, before[key], f"round-trip-{key}", rtol=1e-9, atol=1e-9 * scale)
    m.count("exact conversions")


@workload(quick=500)
def residual_values(rng, m):
    kind = gen.pick(rng, KINDS)
    a, b = camera(rng, exact=False), None
    e = xargs(rng, kind, a, extra=rng.random() < 0.7)
    x = kind(**e)
    b = camera(rng, exact=False, rho=0.1)
    b["f"] = tuple(v / max(b["imgsz"]) * max(a["imgsz"]) for v in b["f"])
    b["imgsz"] = a["imgsz"]
    b["c"] = tuple(float(rng.uniform(-0.05, 0.05)) * v for v in a["imgsz"])
    if RefCam(**b).strength() > 0.3:
        b["k"], b["p"] = (0,) * 6, (0, 0)
    cam = Camera(**b)
    m.case(kind=kind.__name__, x=e, cam=b)
    scale = max(a["imgsz"])
    grid = rng.random() < 0.4
    if grid:
        n = int(gen.pick(rng, (1, 2, 10, 100, 300)))
        conv = Converter(x, cam, uv=n)
        uv = np.asarray(conv.uv)
        m.must(uv.ndim == 2 and uv.shape[1] == 2 and len(uv) > 0, "grid-points", uv=uv, n=n)
        w, h = a["imgsz"]
        u, v = np.unique(uv[:, 0].round(9)), np.unique(uv[:, 1].round(9))
        m.equal(len(u) * len(v), len(uv), "grid-regular")
        for t, size in ((u, w), (v, h)):
            m.close(t, (np.arange(len(t)) + 0.5) * size / len(t), "grid-spacing", rtol=1e-7)
        if n >= 100 and max(w, h) / min(w, h) < 10:
            m.check(0.5 * n <= len(uv) <= 1.7 * n, "grid-count", n=n, got=len(uv), size=(w, h))
        m.count("grids")
    else:
        uv = rng.random((30, 2)) * a["imgsz"]
        conv = Converter(x, cam, uv=uv if rng.random() < 0.7 else uv.tolist())
        m.close(conv.uv, uv, "points-kept")
    before = cam.to_array(), fields(x)
    r = conv.residuals()
    m.equal(cam.to_array(), before[0], "camera-unchanged")
    m.equal(fields(x), before[1], "external-unchanged")
    m.close(r, residuals(x, cam, uv), f"{kind.__name__}-residuals", rtol=1e-6, atol=2e-4 * scale)
    # Camera which projects exactly leaves no room for inversion error
    if kind is PhotoModeler:
        m.close(r, residuals(x, cam, uv), "photomodeler-residuals", rtol=1e-9, atol=1e-9 * scale)
    elif not any(b["k"]) and not any(b["p"]):
        m.close(r, residuals(x, cam, uv), "residuals", rtol=1e-9, atol=1e-9 * scale)
    m.count("residual sets")
    if rng.random() < 0.1:
        plt.close("all")
        ok, q = m.returns(lambda: conv.plot(**({"scale": 0.5} if rng.random() < 0.5 else {})), "plot")
        if ok:
            m.close(np.column_stack((q.X, q.Y)), uv, "plot-origins")
            m.close(np.column_stack((q.U, q.V)) / q.scale, r, "plot-errors", rtol=1e-6, atol=1e-9)
        ok, q = m.returns(lambda: conv.plot(scale=0.25, color="blue", width=3), "plot")
        if ok:
            m.equal((float(q.scale), float(q.width), [tuple(float(v) for v in c) for c in q.get_facecolors()][:1]), (0.25, 3.0, [(0.0, 0.0, 1.0, 1.0)]), "plot-settings")
            m.close(np.column_stack((q.U, q.V)) / q.scale, r, "plot-errors", rtol=1e-6, atol=1e-9)
        plt.close("all")
    m.count("points", len(uv))
    if kind is OpenCV:
        xy = (uv - np.array(a["imgsz"]) / 2) / a["f"]
        p = np.column_stack((xy, np.ones(len(xy))))
        got, _ = cv2.projectPoints(p, np.zeros(3), np.zeros(3), np.array(x.cameraMatrix), np.array(x.distCoeffs))
        flat = Camera(imgsz=a["imgsz"], f=a["f"])
        r = Converter(x, flat, uv=uv).residuals()
        m.close(uv - got[:, 0], r, "opencv-itself", rtol=1e-7, atol=1e-7 * scale)
        m.count("projected by OpenCV")
    if rng.random() < 0.3:
        other = Camera(**{**b, "imgsz": (a["imgsz"][0] + int(rng.integers(0, 2)), a["imgsz"][1] + 1)})
        m.raises(ValueError, lambda: Converter(x, other), "different-sizes")
        m.count("rejected")


def _sse(r):
    return float(np.sum(np.asarray(r) ** 2))


def _select(x, choice):
    """Expand a choice of parameters to a list of (name, position)."""
    out = []
    for key, sel in choice.items():
        n = np.size(getattr(x, key))
        idx = range(n) if sel is True else [] if sel is False else np.atleast_1d(sel).tolist()
        out += [(key, int(i)) for i in idx]
    return out


def _fit(x, names, fun):
    """Independent fit of the named parameters (in place, then restored)."""
    if not names:
        return np.inf
    saved = {k: getattr(x, k) for k, _ in names}
    t0 = np.array([np.atleast_1d(getattr(x, k))[i] for k, i in names], dtype=float)

    def put(t):
        for k in saved:
            v = np.atleast_1d(np.array(saved[k], dtype=float)).copy()
            for (kk, i), ti in zip(names, t):
                if kk == k:
                    v[i] = ti
            setattr(x, k, tuple(v) if np.size(saved[k]) > 1 else float(v[0]))

    def f(t):
        put(t)
        return fun().ravel()

    try:
        fit = scipy.optimize.least_squares(f, t0, x_scale="jac", max_nfev=60)
        return 2 * fit.cost
    finally:
        put(t0)
        for k, v in saved.items():
            setattr(x, k, v)


CHOICES = {
    Agisoft: ({"k1": True, "k2": True}, {"f": True, "b1": True, "k1": 0}, {"k1": True, "k2": False, "k3": [0]}, {"cx": True, "cy": True, "k1": True}),
    Matlab: ({"kc": [0, 1]}, {"kc": 0}, {"kc": [0, 4], "fc": True}, {"fc": 1, "kc": True}, {"kc": (0, 1, 4)}, {"cc": 0, "kc": True, "fc": False}),
    PhotoModeler: ({"k1": True}, {"k1": True, "k2": 0}, {"focal": True, "k1": True, "k2": True}, {"xp": True, "yp": [0], "p1": True}),
    Camera: ({"k": 0}, {"k": [0, 1]}, {"f": True, "k": True}, {"c": True, "f": 1, "k": [0, 1, 2]}, {"k": True, "p": False}, {"p": 1, "k": 0, "c": [1]}),
}


@workload(quick=200, thorough=2000)
def fitted_from_camera(rng, m):
    kind = gen.pick(rng, (Agisoft, Matlab, PhotoModeler))
    a = camera(rng, exact=False, pattern=gen.pick(rng, ("all", "kp", "k456") + (("k1", "p", "k12") if kind is PhotoModeler else ())), rho=0.15)
    if rng.random() < 0.4:
        # A single term that is not exact
        r2 = ((0.5 * a["imgsz"][0] / a["f"][0]) ** 2 + (0.5 * a["imgsz"][1] / a["f"][1]) ** 2)
        k, j = [0.0] * 6, int(rng.integers(3, 6))
        p, sign = [0.0, 0.0], 1 if rng.random() < 0.5 else -1
        if kind is PhotoModeler and rng.random() < 0.7:
            p[rng.integers(2)] = sign * float(rng.uniform(0.005, 0.02)) / np.sqrt(r2)
        else:
            k[j] = sign * float(rng.uniform(0.03, 0.08)) / r2 ** (j - 2)
        b = dict(a, k=tuple(k), p=tuple(p))
        while RefCam(**b).strength() > 0.2:
            b["k"], b["p"] = (tuple(0.7 * v for v in b[key]) for key in ("k", "p"))
        a["k"], a["p"] = b["k"], b["p"]
        m.count("single terms")
    if kind is PhotoModeler:
        a["sensorsz"] = tuple(float(v) for v in rng.uniform(4, 40, 2))
        f = a.pop("f")
        s = [a["sensorsz"][i] / a["imgsz"][i] for i in range(2)]
        a["fmm"] = (f[0] * s[0], f[0] * s[0] * float(gen.pick(rng, (1, 1, 1.01))))
    cam = Camera(**a)
    choice = True if rng.random() < 0.5 else gen.pick(rng, CHOICES[kind])
    uv = int(rng.integers(12, 60)) if rng.random() < 0.7 else rng.random((30, 2)) * a["imgsz"]
    m.case(kind=kind.__name__, cam=a, optimize=choice, uv=uv)
    plain = kind.from_camera(cam, optimize=False)
    m.count("unoptimized")
    x = kind.from_camera(cam, optimize=choice, uv=uv)
    _judge(rng, m, kind, x, plain, cam, cam, choice, uv, "external")


@workload(quick=200, thorough=2000)
def fitted_to_camera(rng, m):
    kind = gen.pick(rng, KINDS)
    a = camera(rng, pattern=gen.pick(rng, ("none", "k1", "k12", "k123")), rho=0.15)
    e = xargs(rng, kind, a, extra=True)
    if kind is OpenCV and rng.random() < 0.5:
        j, r2 = int(rng.integers(1, 5)), (0.5 * a["imgsz"][0] / a["f"][0]) ** 2 + (0.5 * a["imgsz"][1] / a["f"][1]) ** 2
        e.update({f"s{i}": 0.0 for i in range(1, 5)})
        e[f"s{j}"] = float(rng.uniform(0.005, 0.01)) / r2 ** ((j + 1) % 2 + 1) * (1 if rng.random() < 0.5 else -1)
        m.count("single terms")
    x = kind(**e)
    choice = True if rng.random() < 0.5 else gen.pick(rng, CHOICES[Camera])
    uv = int(rng.integers(12, 60)) if rng.random() < 0.7 else rng.random((30, 2)) * a["imgsz"]
    m.case(kind=kind.__name__, x=e, optimize=choice, uv=uv)
    plain = x.to_camera(optimize=False)
    m.count("unoptimized")
    before = fields(x)
    cam = x.to_camera(optimize=choice, uv=uv)
    m.equal(fields(x), before, "external-unchanged")
    _judge(rng, m, kind, cam, plain, x, x, choice, uv, "camera")
    if choice is True and kind is Agisoft and abs(e.get("k4", 0)) * (0.5 * e["imgsz"][0] / e["f"]) ** 8 > 1e-6:
        m.check(bool(np.any(cam.k[3:] != 0)), "all-of-k-fitted", k=cam.k)


DEFAULTS = {
    Agisoft: lambda x: {"k": True, "f": True, "c": True} if x.b2 else {"k": True},
    Matlab: lambda x: {"f": True, "c": True, "k": True, "p": True},
    OpenCV: lambda x: {"k": True, "p": True},
    PhotoModeler: lambda x: {**({"k": True} if any((x.k1, x.k2, x.k3)) else {}), **({"p": True} if any((x.p1, x.p2)) else {})},
}


def _judge(rng, m, kind, out, plain, src, fixed, choice, uv, what):
    m.count("fitted conversions")
    pair = (lambda o: (o, fixed)) if what == "external" else (lambda o: (fixed, o))
    cam = pair(out)[1]
    if choice is True:
        if what == "camera":
            sel = DEFAULTS[kind](src)
        elif kind is Agisoft:
            sel = {"k1": True, "k2": True, "k3": True}
        elif kind is Matlab:
            sel = {"kc": True}
        else:
            sel = {}
            if abs(src.fmm[0] - src.fmm[1]) > 1e-9 * src.fmm[0]:
                sel.update(dict.fromkeys(("focal", "fw", "fh", "xp", "yp"), True))
            if np.any(src.k):
                sel.update(k1=True, k2=True, k3=True)
            if np.any(src.p):
                sel.update(p1=True, p2=True)
    else:
        sel = choice
        m.count("chosen parameters")
        m.count("single-index choices", any(type(v) is int for v in choice.values()))
    names = _select(plain, sel)
    # Only the chosen parameters may differ
    keys = ("f", "c", "k", "p", "imgsz", "xyz", "viewdir", "sensorsz") if what == "camera" else tuple(fields(plain))
    for key in keys:
        if getattr(plain, key) is None:
            continue
        p, o = (np.atleast_1d(np.array(getattr(c, key), dtype=float)) for c in (plain, out))
        m.must(p.shape == o.shape, "parameter-shape", key=key, plain=p, out=o)
        skip = [i for i in range(len(p)) if (key, i) in names]
        m.close(np.delete(o, skip), np.delete(p, skip), "other-parameters", rtol=1e-7, atol=1e-12, key=key)
    if isinstance(uv, int):
        uv = np.asarray(Converter(*pair(plain), uv=uv).uv)
    m.count("points", len(uv))
    s0, s1 = _sse(residuals(*pair(plain), uv)), _sse(residuals(*pair(out), uv))
    if what == "camera" and kind is not PhotoModeler and s1 > s0:
        # Near a pole of the fitted distortion, start from the external camera instead
        near = cam_xy(kind.to_camera(fixed, optimize=False), uv)
        s1 = min(s1, _sse(cam_uv(out, near) - FORWARD[kind](fixed, near)), _sse(Converter(fixed, out, uv=uv).residuals()))
    tiny = len(uv) * (1e-7 * max(cam.imgsz)) ** 2
    m.check(s1 <= s0 * (1 + 1e-6) + tiny, "not-worse", before=s0, after=s1, names=names)
    # A separate fit of the same parameters does no better (denominators make for flat, winding valleys)
    if what == "camera" and any(n == ("k", i) for n in names for i in (3, 4, 5)):
        m.count("improved fits", s1 < 0.9 * s0)
        return
    trial = type(out)(**fields(plain)) if what == "external" else plain.copy()
    fit = _fit(trial, names, lambda: residuals(*pair(trial), uv))
    slack = max(0.15 * s0, 0.5 * fit, len(uv) * 0.01**2)
    m.check(s1 <= fit + slack, "best-fit", before=s0, after=s1, fit=fit, names=names, kind=kind.__name__)
    if fit < 0.5 * s0 - slack:
        m.count("improvable fits")


# ---- files ----
@workload(quick=240)
def agisoft_file(rng, m):
    e = xargs(rng, Agisoft, camera(rng), extra=rng.random() < 0.5)
    tags = {k: v for k, v in e.items() if k != "imgsz" and (k == "f" or (v and rng.random() < 0.9))}
    lines = [("projection", "frame")] if rng.random() < 0.8 else []
    lines += [("width", e["imgsz"][0]), ("height", e["imgsz"][1])]
    lines += [(k, gen.pick(rng, (repr(v), f"{v:.17e}", f" {v!r} "))) for k, v in tags.items()]
    if rng.random() < 0.5:
        lines += [("date", "2019-01-01T00:00:00Z"), ("p3", "0.5")][: rng.integers(1, 3)]
    rng.shuffle(lines)
    bad = rng.random()
    if bad < 0.15:
        lines = [t for t in lines if t[0] != "projection"]
        lines.insert(rng.integers(len(lines) + 1), ("projection", gen.pick(rng, ("fisheye", "spherical"))))
    name = "camera" if 0.15 <= bad < 0.25 else "calibration"
    body = f"<{name}>" + "".join(f"\n  <{k}>{v}</{k}>" for k, v in lines) + f"\n</{name}>\n"
    if name == "camera" or rng.random() < 0.3:
        body = f'<document version="1.2"><chunk><sensor id="0">{body}</sensor></chunk></document>'
    txt = '<?xml version="1.0" encoding="UTF-8"?>\n' + body
    m.case(xml=txt)
    m.count("files")
    path = os.path.join(scratch(), "c.xml")
    with open(path, "w") as f:
        f.write(txt)
    if bad < 0.25:
        m.raises(ValueError, lambda: Agisoft.from_xml(path), "unsupported-file")
        m.count("rejected")
        return
    x = Agisoft.from_xml(path if rng.random() < 0.5 else io.StringIO(txt))
    want = {**dict.fromkeys(("cx", "cy", "k1", "k2", "k3", "k4", "p1", "p2", "b1", "b2"), 0), "imgsz": e["imgsz"], **tags}
    m.equal(fields(x), want, "file-parameters")


@workload(quick=160)
def matlab_file(rng, m):
    e = xargs(rng, Matlab, camera(rng), extra=rng.random() < 0.5)
    err = {k: tuple(np.abs(rng.normal(size=n)) * 10.0 ** rng.integers(-9, 2)) for k, n in (("fc", 2), ("cc", 2), ("kc", 5), ("alpha_c", 1))}
    fmt = lambda vs: " ; ".join(f"{v:.15f}" for v in np.atleast_1d(vs))
    arr = lambda vs: "[ " + fmt(vs) + " ]"
    rnd = lambda vs: tuple(float(f"{v:.15f}") for v in np.atleast_1d(vs))
    txt = "% Intrinsic and Extrinsic Camera Parameters\n\n"
    txt += f"%-- Focal length:\nfc = {arr(e['fc'])};\n\n%-- Principal point:\ncc = {arr(e['cc'])};\n\n"
    txt += f"%-- Skew coefficient:\nalpha_c = {fmt(e['alpha_c'])};\n\n%-- Distortion coefficients:\nkc = {arr(e['kc'])};\n\n"
    txt += f"%-- Focal length uncertainty:\nfc_error = {arr(err['fc'])};\n\n%-- Principal point uncertainty:\ncc_error = {arr(err['cc'])};\n\n"
    txt += f"%-- Skew coefficient uncertainty:\nalpha_c_error = {fmt(err['alpha_c'])};\n\n%-- Distortion coefficients uncertainty:\nkc_error = {arr(err['kc'])};\n\n"
    txt += f"%-- Image size:\nnx = {e['imgsz'][0]};\nny = {e['imgsz'][1]};\n\nn_ima = 14;\nest_fc = [ 1 ; 1 ];\ncenter_optim = 1;\n\n"
    txt += "%-- Image #1:\nomc_1 = [ 2.1 ; 2.2 ; -0.1 ];\nTc_1  = [ -1.0 ; -2.0 ; 10.0 ];\nomc_error_1 = [ 0.1 ; 0.2 ; 0.3 ];\n"
    m.case(report=txt)
    m.count("files")
    path = os.path.join(scratch(), "c.m")
    with open(path, "w") as f:
        f.write(txt)
    x = Matlab.from_report(path)
    want = {**e, **{k: rnd(e[k]) for k in ("fc", "cc", "kc")}, "alpha_c": rnd(e["alpha_c"])[0]}
    m.equal(fields(x), want, "file-parameters")
    x = Matlab.from_report(path, sigmas=True)
    for k in err:
        m.close(np.atleast_1d(getattr(x, k)), np.array(rnd(err[k])) / 3, "file-sigmas", rtol=1e-12, atol=0, key=k)


@workload(quick=160)
def opencv_file(rng, m):
    e = xargs(rng, OpenCV, camera(rng, exact=False), extra=rng.random() < 0.5)
    n = int(gen.pick(rng, (0, 4, 5, 8, 12, 14)))
    keys = ("k1", "k2", "p1", "p2", "k3", "k4", "k5", "k6", "s1", "s2", "s3", "s4")
    dist = np.array([e.get(k, 0.0) for k in keys] + [0.01, -0.02])[:n]
    K = np.array([[e["fx"], 0, e["cx"]], [0, e["fy"], e["cy"]], [0, 0, 1]])
    want = {"imgsz": e["imgsz"], **{k: e[k] for k in ("fx", "fy", "cx", "cy")}}
    want.update({k: float(v) for k, v in zip(keys, list(dist[:12]) + [0.0] * (12 - min(n, 12)))})
    m.case(K=K, dist=dist)
    m.count("files")
    missing = rng.random() < 0.1
    path = os.path.join(scratch(), "c.xml")
    fs = cv2.FileStorage(path, cv2.FILE_STORAGE_WRITE)
    if rng.random() < 0.5:
        fs.write("image_width", e["imgsz"][0])
    if not missing:
        fs.write("camera_matrix", K)
    if n:
        fs.write("distortion_coefficients", dist.reshape(gen.pick(rng, ((1, n), (n, 1)))))
    fs.write("avg_reprojection_error", 0.123)
    fs.release()
    if missing:
        m.raises(ValueError, lambda: OpenCV.from_xml(path, imgsz=e["imgsz"]), "no-matrix")
        m.count("rejected")
    else:
        x = OpenCV.from_xml(path, imgsz=e["imgsz"])
        for k, v in want.items():
            m.close(getattr(x, k), v, "file-parameters", rtol=1e-13, atol=0, key=k)
    d = dist.reshape(gen.pick(rng, ((n,), (1, n), (n, 1))))
    as_list = rng.random() < 0.3
    x = m.call(OpenCV.from_arrays, K.tolist() if as_list else K, d.tolist() if as_list else d, imgsz=e["imgsz"])
    for k, v in want.items():
        m.close(getattr(x, k), v, "array-parameters", rtol=1e-13, atol=0, key=k)
    m.close(x.cameraMatrix, K, "camera-matrix", rtol=1e-13, atol=0)
    m.close(x.distCoeffs, [want[k] for k in keys], "distortion-vector", rtol=1e-13, atol=0)


@workload(quick=160)
def photomodeler_file(rng, m):
    e = xargs(rng, PhotoModeler, camera(rng), extra=rng.random() < 0.7)
    labels = {
        "focal": ("Focal Length", "Focal"), "xp": ("Xp - principal point x", "Xp"), "yp": ("Yp - principal point y", "Yp"),
        "fw": ("Fw - format width", "Fw"), "fh": ("Fh - format height", "Fh"), "k1": ("K1 - radial distortion 1", "K1"),
        "k2": ("K2 - radial distortion 2", "K2"), "k3": ("K3 - radial distortion 3", "K3"),
        "p1": ("P1 - decentering distortion 1", "P1"), "p2": ("P2 - decentering distortion 2", "P2"),
    }

    def fmt(v):
        if v and abs(v) < 1e-2:
            base, exp = f"{v:.6e}".split("e")
            return f"{base}e{exp[0]}{int(exp[1:]):03d}"
        return f"{v:.6f}"

    txt = "Status Report Tree\n   Project Name: c.pmr\n   Problems and Suggestions (0)\n   Information from most recent processing\n"
    txt += "      Total Error\n         Last Error: 0.635\n   Precisions / Standard Deviations\n      Camera Calibration Standard Deviations\n         Camera1: x\n"
    mean, dev = {}, {}
    for k, (label, short) in labels.items():
        unit = " mm" if k in ("focal", "xp", "yp", "fw", "fh") else ""
        v = fmt(e.get(k, 0.0))
        mean[k], dev[k] = float(v), 0.0
        txt += f"            {label}\n               Value: {v}{unit}\n"
        if rng.random() < 0.7:
            d = fmt(abs(rng.normal()) * 10.0 ** rng.integers(-7, 0))
            dev[k] = float(d)
            txt += f"               Deviation: {short}: {d}{unit}\n"
            if rng.random() < 0.2:
                txt += "               Correlations over 95.0%: Xp:-97.5%, P1:99.1%\n"
    txt += "   Quality\n      Photographs\n         Total Number: 12\n"
    m.case(report=txt)
    m.count("files")
    path = os.path.join(scratch(), "c.txt")
    with open(path, "w") as f:
        f.write(txt)
    m.equal(fields(PhotoModeler.from_report(path, imgsz=e["imgsz"])), {**mean, "imgsz": e["imgsz"]}, "file-parameters")
    m.equal(fields(PhotoModeler.from_report(path, imgsz=e["imgsz"], sigmas=True)), {**dev, "imgsz": e["imgsz"]}, "file-sigmas")


@workload(quick=40)
def no_sensor_size(rng, m):
    cam = Camera(**camera(rng))
    m.case(cam=cam.to_array())
    m.raises(ValueError, lambda: PhotoModeler.from_camera(cam), "no-sensor-size")
    m.count("rejected")
