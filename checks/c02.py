import numpy as np
from gmon import META, workload, gen
from gmon.refcam import RefCam, axes
from glimpse import Camera, config

META["rule"] = (
    "A case is a random camera whose distortion is monotonic (any pattern, contraction "
    "factor below 0.3 over the frame, or any strength for a single radial coefficient) "
    "and a set of pixels: random, centre, principal point, centre row and column, "
    "corners; or world points in front of it. Oracle: the pixel (point) itself after the "
    "round trip, and rays found by Newton iterations on a reference model. Non-trivial "
    "if the camera has distortion or a non-zero orientation. Distinct by camera and pixels."
)
META["require"] = {"pixels": 5000, "distorted pixels": 2000, "points": 1000}
META["assumptions"] = [
    "distortion within the regime where the documented 20-step iteration converges; "
    "stronger multi-coefficient distortion is documented as not converging"
]


def pixels(rng, ref):
    nx, ny = ref.imgsz
    cx, cy = nx / 2 + ref.c[0], ny / 2 + ref.c[1]
    n = int(rng.integers(1, 30))
    uv = [rng.uniform(0, 1, (n, 2)) * (nx, ny)]
    if rng.random() < 0.8:
        a, b = rng.random(2)
        uv.append(
            np.array(
                [
                    (nx / 2, ny / 2), (cx, cy), (cx, b * ny), (a * nx, cy), (cx, 0), (cx, ny),
                    (0, cy), (nx, cy), (0, 0), (nx, 0), (nx, ny), (0, ny),
                    (nx / 2, b * ny), (a * nx, ny / 2),
                ]
            )
        )
    uv = np.vstack(uv)
    if rng.random() < 0.1:
        uv = np.floor(uv).astype(int)
    return uv


def k1_camera(rng):
    """A camera with only k1, of any strength that stays invertible."""
    args = gen.camera_args(rng, pattern="none")
    ref = RefCam(**args)
    corners = ref.xyd_of_uv(np.array([(0, 0), (1, 0), (0, 1), (1, 1)]) * ref.imgsz)
    rmax = np.hypot(*corners.T).max()
    if rng.random() < 0.5:
        # fold at r' = 2 / (3 sqrt(3 |k1|))
        kmax = (2 / (3 * rmax / 0.9)) ** 2 / 3
        k1 = -float(rng.uniform(0.01, 1) * kmax)
    else:
        k1 = gen.loguniform(rng, 1e-4, 3) / rmax**2
    args["k"] = (k1, 0.0, 0.0, 0.0, 0.0, 0.0)
    return args


def check_pixels(rng, m, args):
    config.matmul = bool(rng.random() < 0.7)
    cam = Camera(**args)
    ref = RefCam.of(cam)
    uv = pixels(rng, ref)
    m.case(args=args, n=len(uv), matmul=config.matmul)
    m.count("pixels", len(uv))
    if any(args["k"]) or any(args["p"]):
        m.count("distorted pixels", len(uv))
    elif args["viewdir"] == (0, 0, 0):
        m.trivial()
    tol = 1e-6 + 1e-8 * max(ref.imgsz) + 1e-13 * max(ref.f)
    mode = gen.pick(rng, ("scalar", "vector", "one", "column", "mixed"))
    n = len(uv)
    depth = {
        "scalar": gen.loguniform(rng, 1e-2, 1e5),
        "vector": np.exp(rng.uniform(-4, 10, n)),
        "column": np.exp(rng.uniform(-4, 10, n)),
        "one": 1,
        "mixed": rng.integers(1, 4, n),
    }[mode]
    if mode == "column" and rng.random() < 0.5:
        depth = list(depth)
    directions = bool(rng.random() < 0.6)
    m.case(depth_mode=mode, directions=directions)
    ok, xyz = m.returns(
        lambda: m.call(cam.uv_to_xyz, uv, directions=directions, depth=depth),
        "project-out/" + mode, args=args,
    )
    if not ok:
        return
    rays = xyz if directions else xyz - np.asarray(ref.xyz)
    # distance along the optical axis is the requested depth
    right, down, fwd = axes(ref.viewdir)
    big = 0 if directions else np.abs(ref.xyz).max()
    m.close(
        rays @ fwd, np.broadcast_to(np.asarray(depth, float), (n,)), "depth-along-axis",
        rtol=1e-9, atol=1e-9 + big * 1e-14, args=args,
    )
    # the ray is the reference model's ray
    exp = ref.undistort(ref.xyd_of_uv(uv))
    z = rays @ fwd
    got = np.column_stack((rays @ right / z, rays @ down / z))
    dd = np.asarray(depth, float) if mode != "one" else 1.0
    atol = 1e-9 + big * 1e-14 / np.min(dd) + 2 * tol / max(ref.f)
    m.close(got, exp, "ray", rtol=1e-7, atol=atol, args=args, uv=uv)
    # and comes back to the same pixel
    if directions or ref.correction is None:
        back = m.call(cam.xyz_to_uv, xyz, directions=directions)
        m.close(
            back, uv, "pixel-roundtrip", rtol=0,
            atol=tol + max(ref.f) * big * 4e-15 / np.min(dd) * 50, args=args, uv=uv,
        )
    # default call: directions at depth 1
    dflt = cam.uv_to_xyz(uv)
    m.close(dflt @ fwd, np.ones(n), "default-depth", rtol=1e-9, atol=1e-9)
    if directions:
        m.close(dflt * np.broadcast_to(np.asarray(depth, float), (n,))[:, None], rays, "depth-scales-ray", rtol=1e-9, atol=1e-9)
    # batch = one by one
    j = int(rng.integers(n))
    m.close(cam.uv_to_xyz(uv[j : j + 1]), dflt[j : j + 1], "batch", rtol=1e-9, atol=1e-9)


@workload(quick=1000, thorough=15000)
def pixels_gentle(rng, m):
    check_pixels(rng, m, gen.gentle_camera_args(rng))


@workload(quick=250, thorough=6000)
def pixels_k1(rng, m):
    check_pixels(rng, m, k1_camera(rng))


@workload(quick=300, thorough=6000)
def points(rng, m):
    """World point -> pixel and depth -> the same world point."""
    config.matmul = bool(rng.random() < 0.7)
    args = gen.gentle_camera_args(rng, corr=False)
    cam = Camera(**args)
    ref = RefCam.of(cam)
    pts, rays = gen.points_around(rng, ref, int(rng.integers(1, 30)), spread=0.95, near=1, behind=0)
    m.case(args=args, n=len(pts))
    uv, depth = cam.xyz_to_uv(pts, return_depth=True)
    # only the image frame is in the domain of the inverse
    inside = ((uv >= 0) & (uv <= np.asarray(ref.imgsz))).all(axis=1)
    if not inside.any():
        m.trivial()
        return
    uv, depth, pts = uv[inside], depth[inside], pts[inside]
    m.count("points", len(pts))
    ok, back = m.returns(
        lambda: cam.uv_to_xyz(uv, directions=False, depth=depth), "project-out", args=args
    )
    if ok:
        big = np.abs(ref.xyz).max()
        m.close(back, pts, "point-roundtrip", rtol=1e-12, atol=float(1e-7 * depth.max() + 1e-9 * big), args=args)
        m.close((back - pts) / depth[:, None], np.zeros_like(pts), "point-roundtrip-relative", rtol=0, atol=1e-8 + 1e-13 * big, args=args)


@workload(quick=200, thorough=4000)
def reversible(rng, m):
    """A camera is reported reversible when its centre row and column are monotonic."""
    args = gen.camera_args(rng, sz=gen.imgsz(rng, 20, 400), distort_scale=float(rng.uniform(0.2, 8)), corr=False)
    if rng.random() < 0.4:
        # One direction sees further out than the other
        args["f"] = tuple(np.asarray(args["f"], float) * gen.pick(rng, ((1, float(rng.uniform(0.3, 3))), (float(rng.uniform(0.3, 3)), 1))))
    if rng.random() < 0.3:
        # Folds at one end of one direction
        i = int(rng.integers(2))
        p = [0.0, 0.0]
        p[1 - i] = float(gen.pick(rng, (-1, 1)) * rng.uniform(0.3, 3)) / (3 * args["imgsz"][i] / args["f"][i])
        args["k"], args["p"] = (0.0,) * 6, tuple(p)
    cam = Camera(**args)
    ref = RefCam.of(cam)
    m.case(args=args)
    n = 2001
    x = np.linspace(-0.5, 0.5, n) * ref.imgsz[0] / ref.f[0]
    y = np.linspace(-0.5, 0.5, n) * ref.imgsz[1] / ref.f[1]
    dx = np.diff(ref.distort_xy(x, np.zeros(n))[0]) / np.diff(x)
    dy = np.diff(ref.distort_xy(np.zeros(n), y)[1]) / np.diff(y)
    lo = min(dx.min(), dy.min())
    poles = [1 + ref.k[3] * t**2 + ref.k[4] * t**4 + ref.k[5] * t**6 for t in (x, y)]
    if min(p.min() for p in poles) < 0.05:
        m.trivial()
        return
    # share of the range that folds: visible at the image's own resolution
    fold = max((dx < -0.05).mean() * ref.imgsz[0], (dy < -0.05).mean() * ref.imgsz[1])
    if lo > 1e-3:
        m.check(bool(cam.reversible()) is True, "monotonic-is-reversible", args=args)
    elif fold > 4:
        m.check(bool(cam.reversible()) is False, "folding-is-irreversible", args=args)
        m.count("folding cameras")
        folds = [(t < -0.05).any() for t in (dx, dy)]
        m.count("cameras folding in one direction", sum(folds) == 1)
    else:
        m.trivial()


@workload(quick=120, thorough=1500)
def methods(rng, m):
    """The other ways to remove distortion agree with the distortion itself."""
    sz = gen.imgsz(rng, 20, 60)
    if rng.random() < 0.4:
        sz = gen.pick(rng, ((sz[0], 3 * sz[0]), (3 * sz[1], sz[1])))
    args = gen.gentle_camera_args(rng, sz=sz, corr=False)
    cam = Camera(**args)
    ref = RefCam.of(cam)
    if not (hasattr(cam, "_undistort") and (any(cam.k[1:]) or any(cam.p))):
        m.trivial()
        return
    m.case(args=args)
    uv = rng.uniform(0.1, 0.9, (int(rng.integers(1, 20)), 2)) * args["imgsz"]
    xy = (uv - (np.asarray(cam.imgsz) / 2 + cam.c)) / cam.f
    dxy = np.column_stack(ref.distort_xy(xy[:, 0], xy[:, 1]))
    pixel = 1 / float(np.min(cam.f))
    safe = ((uv > 0.1 * cam.imgsz) & (uv < 0.9 * cam.imgsz)).all(axis=1)
    ok, out = m.returns(lambda: cam._undistort(dxy.copy(), method="regulafalsi"), "regulafalsi")
    if ok:
        m.check(out.shape == xy.shape, "regulafalsi-shape", shape=out.shape)
        done = np.isfinite(out).all(axis=1)
        m.check(done.mean() > 0.5, "regulafalsi-converges", share=done.mean())
        m.close(out[done], xy[done], "regulafalsi", rtol=0, atol=1e-4 * pixel)
        m.count("other methods", done.sum())
    few = int(rng.integers(1, 9))
    ok, out = m.returns(lambda: cam._undistort(dxy.copy(), method="regulafalsi", iterations=few), "regulafalsi-few-iterations")
    if ok:
        m.check(out.shape == xy.shape and np.isfinite(out).all(), "regulafalsi-estimates-all", iterations=few)
    for name in ("oulu", "regulafalsi"):
        tolerance = float(gen.pick(rng, (0.01, 0.1)))
        ok, out = m.returns(lambda: cam._undistort(dxy.copy(), method=name, tolerance=tolerance), name + "-tolerance")
        if ok:
            done = np.isfinite(out).all(axis=1)
            back = np.column_stack(ref.distort_xy(out[done, 0], out[done, 1]))
            m.close(back, dxy[done], name + "-tolerance", rtol=0, atol=1.5 * tolerance * pixel)
    if rng.random() < 0.3:
        ok, out = m.returns(lambda: cam._undistort(dxy.copy(), method="lookup"), "lookup")
        if ok:
            done = np.isfinite(out).all(axis=1)
            m.count("other methods", done.sum())
            m.close(out[done], xy[done], "lookup", rtol=0, atol=0.1 * pixel)
            # The table covers the frame
            m.check(done[safe].all(), "lookup-covers-frame", missing=int((~done[safe]).sum()))
    m.raises(ValueError, lambda: cam._undistort(dxy, method="none"), "unknown-method")
