import numpy as np
from gmon import META, workload, gen
from gmon.refcam import RefCam, axes
import glimpse
from glimpse import Camera, config, helpers

META["rule"] = (
    "A case is a random camera (any orientation, size, focal length, distortion "
    "pattern, curvature correction) with 1-40 world points or rays around, outside and "
    "behind its frame; the oracle is a pinhole + Brown/rational distortion model written "
    "from the documentation. A case is non-trivial if at least one point is in front of "
    "the camera. Distinct by the recorded camera and points."
)
META["require"] = {"points in front": 1000, "points behind": 100, "points in frame": 200}
META["assumptions"] = ["floating point: results compared to 1e-6 of the image size"]


def _matmul(rng):
    """Both documented matrix product modes."""
    config.matmul = bool(rng.random() < 0.7)


def _project(rng, m, args, cam, ref, n, directions):
    pts, rays = gen.points_around(rng, ref, n, spread=float(rng.uniform(0.5, 3)))
    src = rays if directions else pts
    if rng.random() < 0.05:
        src = np.round(src).astype(int)
    uv, depth = m.call(cam.xyz_to_uv, src, directions=directions, return_depth=True)
    uv2 = m.call(cam.xyz_to_uv, src, directions=directions)
    m.equal(uv2, uv, "depth-request-changes-pixels", args=args, pts=src)
    e_uv, e_depth = ref.project(src, directions=directions)
    # Points nearly on the camera plane are numerically undecided
    scale = np.linalg.norm(np.asarray(src, float) - (0 if directions else np.asarray(ref.xyz)), axis=1)
    big = np.abs(np.asarray(ref.xyz)).max() if not directions else 0
    tol_d = 1e-12 * (scale + big) + 1e-12
    clear = np.abs(e_depth) > 1e3 * tol_d
    m.close(depth[clear], e_depth[clear], "depth", rtol=1e-9, atol=float(1e-9 + 1e-9 * big), args=args)
    front = clear & (e_depth > 0)
    behind = clear & (e_depth < 0)
    m.count("points in front", front.sum())
    m.count("points behind", behind.sum())
    m.check(np.isnan(uv[behind]).all(), "behind-is-nan", args=args, uv=uv[behind], pts=src[behind])
    # conditioning: pixel error from rounding of coordinates
    with np.errstate(all="ignore"):
        cond = (scale + big) * 1e-14 / np.abs(e_depth) * max(ref.f)
        amp = 1 + np.abs(e_uv - np.asarray(ref.imgsz) / 2).max(axis=1) / max(ref.imgsz)
        tol = 1e-7 + 20 * cond * amp**7 + 1e-9 * amp * max(ref.imgsz)
    ok = np.abs(uv[front] - e_uv[front]).max(axis=1) <= tol[front] if front.any() else np.array([True])
    finite = np.isfinite(e_uv[front]).all(axis=1) if front.any() else np.array([True])
    if front.any():
        m.check((ok | ~finite).all(), "pixel", args=args, pts=src[front], uv=uv[front], expected=e_uv[front], tol=tol[front])
        inside = ((e_uv[front] >= 0) & (e_uv[front] <= np.asarray(ref.imgsz))).all(axis=1)
        m.count("points in frame", inside.sum())
    else:
        m.trivial()
    return uv, e_uv, front


@workload(quick=700, thorough=20000)
def project_points(rng, m):
    _matmul(rng)
    args = gen.camera_args(rng)
    n = int(rng.integers(1, 40))
    directions = bool(rng.random() < 0.4)
    m.case(args=args, n=n, directions=directions, matmul=config.matmul)
    cam = m.call(Camera, **args)
    ref = RefCam.of(cam)
    # the camera holds what it was given
    corr = args["correction"]
    want = None
    if corr is True or isinstance(corr, dict):
        want = {"radius": 6.3781e6, "refraction": 0.13, **(corr if isinstance(corr, dict) else {})}
    m.equal(ref.correction, want, "correction-defaults")
    for a in ("f", "c", "k", "p", "xyz", "viewdir", "imgsz"):
        m.close(getattr(ref, a), args[a], "held-" + a, rtol=0, atol=0)
    _project(rng, m, args, cam, ref, n, directions)


@workload(quick=150, thorough=4000)
def project_after_edits(rng, m):
    """Projection follows the camera's current parameters, not earlier ones."""
    _matmul(rng)
    args = gen.camera_args(rng)
    cam = Camera(**args)
    hist = []
    m.case(args=args)
    for _ in range(int(rng.integers(1, 6))):
        other = gen.camera_args(rng, sz=tuple(int(i) for i in cam.imgsz))
        key = gen.pick(rng, ("f", "c", "k", "p", "xyz", "viewdir", "elem"))
        if key == "elem":
            name = gen.pick(rng, ("viewdir", "xyz", "c", "k", "p", "f"))
            j = int(rng.integers(len(getattr(cam, name))))
            getattr(cam, name)[j] = other[name][j]
            hist.append((name, j))
        else:
            setattr(cam, key, other[key])
            hist.append(key)
        ref = RefCam.of(cam)
        uv, e, front = _project(rng, m, hist, cam, ref, 6, bool(rng.random() < 0.3))
    m.case(edits=hist)


@workload(quick=300, thorough=6000)
def rotation(rng, m):
    """R maps world to camera axes; Rprime is its derivative per degree."""
    args = gen.camera_args(rng, corr=False)
    cam = Camera(**args)
    m.case(viewdir=args["viewdir"])
    right, down, fwd = axes(args["viewdir"])
    R = np.array(cam.R)
    m.close(R, np.array([right, down, fwd]), "axes", rtol=0, atol=1e-12)
    m.close(R @ R.T, np.eye(3), "orthonormal", rtol=0, atol=1e-12)
    m.close(np.linalg.det(R), 1.0, "right-handed", rtol=0, atol=1e-12)
    # Rprime[i, j, k] = d (R.T)[i, j] / d viewdir[k]  (as stored: axis=1 stack)
    h = 1e-4
    D = np.empty((3, 3, 3))
    for k in range(3):
        v = np.array(args["viewdir"])
        vp, vm = v.copy(), v.copy()
        vp[k] += h
        vm[k] -= h
        D[k] = (np.array(axes(vp)) - np.array(axes(vm))) / (2 * h)
    Rp = np.asarray(cam.Rprime)
    m.close(Rp.shape, (3, 3, 3), "rprime-shape")
    # accept any axis order as long as some fixed one used by the optimizer holds
    m.close(np.einsum("ikj->kji", Rp), D, "rprime-derivative", rtol=0, atol=1e-7)


@workload(quick=150, thorough=3000)
def corrections(rng, m):
    n = int(rng.integers(1, 20))
    d2 = np.exp(rng.uniform(-5, 25, n))
    radius = gen.loguniform(rng, 1e3, 1e7)
    refr = float(rng.uniform(-0.2, 0.6))
    m.case(n=n, radius=radius, refr=refr)
    got = m.call(helpers.elevation_corrections, d2, radius=radius, refraction=refr)
    m.close(got, -(1 - refr) * d2 / (2 * radius), "formula", rtol=1e-12, atol=0)
    m.close(helpers.elevation_corrections(d2), -(1 - 0.13) * d2 / (2 * 6.3781e6), "defaults", rtol=1e-12, atol=0)


@workload(quick=200, thorough=4000)
def invariances(rng, m):
    """Batch = one by one; moving camera and points together moves nothing."""
    _matmul(rng)
    args = gen.camera_args(rng, pos=tuple(rng.uniform(-50, 50, 3)))
    cam = Camera(**args)
    ref = RefCam.of(cam)
    pts, rays = gen.points_around(rng, ref, int(rng.integers(2, 12)), near=5)
    m.case(args=args, n=len(pts))
    uv = cam.xyz_to_uv(pts)
    one = np.vstack([cam.xyz_to_uv(p[None, :]) for p in pts])
    m.close(one, uv, "batch", rtol=1e-9, atol=1e-6)
    perm = rng.permutation(len(pts))
    m.close(cam.xyz_to_uv(pts[perm]), uv[perm], "permutation", rtol=1e-9, atol=1e-6)
    shift = rng.uniform(-20, 20, 3)
    cam2 = Camera(**{**args, "xyz": tuple(np.array(args["xyz"]) + shift)})
    m.close(cam2.xyz_to_uv(pts + shift), uv, "translation", rtol=1e-7, atol=1e-5)
    # directions ignore position and positive scaling
    duv = cam.xyz_to_uv(rays, directions=True)
    m.close(cam2.xyz_to_uv(rays, directions=True), duv, "directions-ignore-position", rtol=1e-9, atol=1e-6)
    m.close(cam.xyz_to_uv(rays * float(rng.uniform(0.1, 10)), directions=True), duv, "directions-ignore-length", rtol=1e-7, atol=1e-5)


@workload(quick=40, thorough=600)
def camera_plane(rng, m):
    """A point exactly on the plane through the camera is not in front of it."""
    _matmul(rng)
    args = gen.camera_args(rng, corr=False)
    args["viewdir"] = (0.0, 0.0, 0.0)
    args["xyz"] = tuple(float(i) for i in rng.integers(-1000, 1000, 3))
    cam = Camera(**args)
    n = int(rng.integers(1, 20))
    off = rng.integers(-50, 50, (n, 3)).astype(float)
    on = rng.random(n) < 0.7
    off[:, 1] = np.where(on, 0, np.abs(off[:, 1]) + 1)
    m.case(args=args, off=off)
    if not on.any():
        m.trivial()
        return
    directions = bool(rng.random() < 0.5)
    src = off if directions else off + np.array(args["xyz"])
    uv, depth = m.call(cam.xyz_to_uv, src, directions=directions, return_depth=True)
    m.check((depth[on] == 0).all(), "plane-depth", depth=depth[on])
    m.check(np.isnan(uv[on]).all(), "plane-is-nan", uv=uv[on], off=off[on])
    m.check(not cam.inframe(uv[on]).any(), "plane-not-inframe")
