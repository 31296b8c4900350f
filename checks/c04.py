import numpy as np
from gmon import META, workload, gen
from gmon.refcam import RefCam, axes
from glimpse import Camera, helpers

META["rule"] = (
    "A case is a random camera with points on, inside and outside its frame (borders and "
    "corners included), random grid steps and snap points, viewing depths and view "
    "directions; oracles are the frame inequality, an enumeration of the grid by integer "
    "multiples of the step, the projected border and elementary trigonometry."
)
META["require"] = {"points on border": 500, "points outside": 500, "grid points": 2000, "rays in volume": 500, "angles": 500}
META["assumptions"] = [
    "points within rounding error of the camera plane are not judged",
    "the viewing volume is judged for cameras with moderate distortion",
]


@workload(quick=500, thorough=10000)
def frame(rng, m):
    args = gen.camera_args(rng, sz=gen.imgsz(rng, 1, 4000))
    cam = Camera(**args)
    nx, ny = args["imgsz"]
    n = int(rng.integers(1, 60))
    uv = np.column_stack((rng.uniform(-0.5, 1.5, n) * nx, rng.uniform(-0.5, 1.5, n) * ny))
    for j, s in ((0, nx), (1, ny)):
        b = rng.random(n)
        uv[b < 0.15, j] = 0
        uv[(b >= 0.15) & (b < 0.3), j] = s
        uv[(b >= 0.3) & (b < 0.33), j] = np.nextafter(s, np.inf)
        uv[(b >= 0.33) & (b < 0.36), j] = -5e-324
        uv[(b >= 0.36) & (b < 0.39), j] = np.nan
        uv[(b >= 0.39) & (b < 0.41), j] = np.inf
    m.case(imgsz=args["imgsz"], uv=uv)
    want = [bool(0 <= u <= nx and 0 <= v <= ny) for u, v in uv]
    m.count("points on border", sum(1 for u, v in uv if u in (0, nx) or v in (0, ny)))
    m.count("points outside", len(want) - sum(want))
    got = m.call(cam.inframe, uv)
    m.equal(np.asarray(got), np.array(want), "inframe", uv=uv)


@workload(quick=400, thorough=8000)
def front(rng, m):
    args = gen.camera_args(rng, corr=False)
    cam = Camera(**args)
    ref = RefCam.of(cam)
    directions = bool(rng.random() < 0.5)
    pts, rays = gen.points_around(rng, ref, int(rng.integers(1, 30)), spread=20, behind=0.5)
    src = rays if directions else pts
    if rng.random() < 0.2:
        src = src.copy()
        src[0] = 0 if directions else args["xyz"]
    m.case(args=args, src=src, directions=directions)
    d = (src - (0 if directions else np.asarray(args["xyz"]))) @ axes(args["viewdir"])[2]
    tol = 1e-9 * (1 + np.linalg.norm(src, axis=1))
    got = np.asarray(m.call(cam.infront, src, directions=directions))
    clear = np.abs(d) > tol
    m.equal(got[clear], (d > 0)[clear], "infront", depth=d, src=src)
    uv = cam.xyz_to_uv(src, directions=directions)
    m.equal(got[clear], ~np.isnan(uv).any(axis=1)[clear], "infront-agrees-with-projection")
    if rng.random() < 0.2 and not directions and tuple(src[0]) == tuple(args["xyz"]):
        m.check(not got[0], "position-not-in-front")


@workload(quick=300, thorough=6000)
def image_grid(rng, m):
    sz = gen.imgsz(rng, 1, 300)
    cam = Camera(imgsz=sz, f=float(max(sz)))
    kind = gen.pick(rng, ("int", "dyadic", "pair", "pairint"))
    if kind == "int":
        step = int(rng.integers(1, max(sz) + 3))
    elif kind == "dyadic":
        step = float(rng.integers(1, 8 * max(sz))) / 8
    elif kind == "pairint":
        step = (int(rng.integers(1, sz[0] + 2)), int(rng.integers(1, sz[1] + 2)))
    else:
        step = (float(rng.integers(1, 4 * sz[0] + 2)) / 4, float(rng.integers(1, 4 * sz[1] + 2)) / 4)
    st = step if np.iterable(step) else (step, step)
    if sz[0] * sz[1] / (st[0] * st[1]) > 2e5:
        step = st = (max(st[0], 1), max(st[1], 1))
    snap = None
    if rng.random() < 0.6:
        snap = tuple(float(v) / 8 for v in rng.integers(-80, 8 * max(sz), 2))
    m.case(imgsz=sz, step=step, snap=snap)
    want = []
    for j in range(2):
        s = snap[j] if snap is not None else 0.5
        lo = int(np.floor((0 - s) / st[j])) - 1
        hi = int(np.ceil((sz[j] - s) / st[j])) + 1
        want.append(np.array([s + k * st[j] for k in range(lo, hi + 1) if 0 <= s + k * st[j] <= sz[j]]))
    kw = {} if snap is None else {"snap": snap}
    if not (len(want[0]) and len(want[1])):
        m.trivial()
        return
    x, y = cam.grid(step=step, mode="vectors", **kw)
    m.close(x, want[0], "grid-x", rtol=1e-12)
    m.close(y, want[1], "grid-y", rtol=1e-12)
    X, Y = np.meshgrid(*want)
    gx, gy = cam.grid(step=step, mode="grids", **kw)
    m.close(gx, X, "grids-x", rtol=1e-12)
    m.close(gy, Y, "grids-y", rtol=1e-12)
    pts = cam.grid(step=step, mode="points", **kw)
    m.close(pts, np.column_stack((X.ravel(), Y.ravel())), "points", rtol=1e-12)
    m.count("grid points", len(pts))
    m.check(cam.inframe(pts).all(), "grid-inframe")
    if not np.iterable(step) and step == 1 and snap is None:
        m.check(len(pts) == sz[0] * sz[1], "one-point-per-pixel")
    m.raises(ValueError, lambda: cam.grid(step=step, mode="nonsense"), "bad-mode")


@workload(quick=300, thorough=6000)
def border(rng, m):
    sz = gen.imgsz(rng, 1, 500)
    cam = Camera(imgsz=sz, f=float(max(sz)))
    divide = rng.random() < 0.5
    if divide:
        parts = (int(rng.integers(1, sz[0] + 1)), int(rng.integers(1, sz[1] + 1)))
        step = (sz[0] / parts[0], sz[1] / parts[1])
    elif rng.random() < 0.5:
        step = float(rng.uniform(0.3, min(sz)))
        parts = (int(sz[0] / step), int(sz[1] / step))
    else:
        step = (float(rng.uniform(0.3, sz[0])), float(rng.uniform(0.3, sz[1])))
        parts = (int(sz[0] / step[0]), int(sz[1] / step[1]))
    m.case(imgsz=sz, step=step)
    e = np.asarray(cam.edges(step=step))
    m.must(e.ndim == 2 and e.shape[1] == 2 and len(e) >= 4, "edges-shape", shape=e.shape)
    onb = (np.isin(e[:, 0], (0, sz[0]))) | (np.isin(e[:, 1], (0, sz[1])))
    m.check(onb.all() and cam.inframe(e).all(), "edges-on-border", e=e)
    m.check(tuple(e[0]) == (0, 0), "edges-start-at-origin", e=e)
    for c in ((0, 0), (sz[0], 0), (sz[0], sz[1]), (0, sz[1])):
        m.check((e == c).all(axis=1).sum() == 1, "each-corner-once", corner=c, e=e)
    # clockwise (in image axes): perimeter coordinate increases monotonically
    per = []
    for u, v in e:
        if v == 0:
            per.append(u)
        elif u == sz[0]:
            per.append(sz[0] + v)
        elif v == sz[1]:
            per.append(sz[0] + sz[1] + sz[0] - u)
        else:
            per.append(2 * sz[0] + sz[1] + sz[1] - v)
    per = np.array(per)
    m.check((np.diff(per) > 0).all(), "edges-clockwise", e=e)
    full = np.append(per, 2 * (sz[0] + sz[1]))
    gaps = np.diff(full)
    # evenly spaced along each side, at (about) the requested step
    for j, (a, b) in enumerate(((0, sz[0]), (sz[0], sz[0] + sz[1]), (sz[0] + sz[1], 2 * sz[0] + sz[1]), (2 * sz[0] + sz[1], 2 * (sz[0] + sz[1])))):
        side = gaps[(full[:-1] >= a - 1e-9) & (full[:-1] < b - 1e-9)]
        m.check(np.ptp(side) <= 1e-9 * max(sz), "edges-even", side=side)
        s = step if not np.iterable(step) else step[j % 2]
        if not divide:
            m.check(s * (1 - 1e-9) <= side[0] < 2 * s + 1e-9, "edges-step", side=side[0], step=s)
    if min(sz) >= 1 and divide and parts[0] == sz[0] and parts[1] == sz[1]:
        m.check(len(e) == 2 * (sz[0] + sz[1]), "edges-count")


@workload(quick=200, thorough=4000)
def volume(rng, m):
    plain = rng.random() < 0.5
    sz = gen.imgsz(rng, 4, 400)
    if plain:
        args = gen.camera_args(rng, sz=sz, pattern="none")
    else:
        args = gen.gentle_camera_args(rng, sz=sz)
    cam = Camera(**args)
    ref = RefCam.of(cam)
    depth = gen.loguniform(rng, 0.5, 1e4)
    m.case(args=args, depth=depth)
    right, down, fwd = axes(args["viewdir"])
    xyz = np.asarray(args["xyz"])

    def out(uv, d):
        xy = ref.undistort(ref.xyd_of_uv(uv))
        return xyz + np.reshape(d, (-1, 1)) * (xy[:, :1] * right + xy[:, 1:] * down + fwd)

    nx, ny = sz
    u, v = np.arange(nx + 1.0), np.arange(ny + 1.0)
    uv = np.vstack(
        (
            np.column_stack((u, 0 * u)), np.column_stack((u, 0 * u + ny)),
            np.column_stack((0 * v, v)), np.column_stack((0 * v + nx, v)),
        )
    )
    verts = np.vstack((xyz, out(uv, depth)))
    lo, hi = verts.min(axis=0), verts.max(axis=0)
    box = np.asarray(m.call(cam.viewbox, depth))
    tol = (1e-9 if plain else 3e-3) * (hi - lo).max() + 1e-8 * np.abs(xyz).max() * 1e-3
    m.close(box, np.concatenate((lo, hi)), "viewbox", rtol=0, atol=tol)
    n = 20
    inner = np.column_stack((rng.uniform(0, nx, n), rng.uniform(0, ny, n)))
    pts = out(inner, rng.uniform(0, depth, n))
    m.count("rays in volume", n)
    m.check((pts >= box[:3] - tol).all() and (pts <= box[3:] + tol).all(), "viewbox-contains-visible", box=box, pts=pts)
    poly = np.asarray(m.call(cam.viewpoly, depth))
    cy = ny / 2 + args["c"][1]
    w = np.vstack((xyz, out(np.array([(0, cy), (nx, cy)]), depth), xyz))
    m.close(poly, w, "viewpoly", rtol=0, atol=tol)


@workload(quick=300, thorough=6000)
def spherical(rng, m):
    pos = gen.position(rng)
    cam = Camera(imgsz=10, f=10, xyz=pos, viewdir=gen.viewdir(rng))
    n = int(rng.integers(1, 20))
    az = rng.uniform(-720, 720, n)
    az[rng.random(n) < 0.2] = gen.pick(rng, (0.0, 90.0, 180.0, 270.0, 359.999))
    alt = rng.uniform(-89.5, 89.5, n)
    alt[rng.random(n) < 0.1] = 0
    r = np.exp(rng.uniform(-1, 9, n))
    m.case(pos=pos, az=az, alt=alt, r=r)
    m.count("angles", n)
    d = np.column_stack(
        (
            np.cos(np.radians(alt)) * np.sin(np.radians(az)),
            np.cos(np.radians(alt)) * np.cos(np.radians(az)),
            np.sin(np.radians(alt)),
        )
    )
    m.close(m.call(cam.spherical_to_xyz, np.column_stack((az, alt))), d, "directions", atol=1e-12)
    p = m.call(cam.spherical_to_xyz, np.column_stack((az, alt, r)))
    scale = np.abs(pos).max() + r.max()
    m.close(p, d * r[:, None] + np.asarray(pos), "positions", atol=1e-12 * scale)

    def same(got, want, tol, mech):
        m.must(got.shape == want.shape, mech + "/shape", got=got)
        da = (got[:, 0] - want[:, 0] + 180) % 360 - 180
        m.check((np.abs(da) * np.cos(np.radians(want[:, 1])) <= tol).all(), mech + "/azimuth", got=got, want=want)
        m.check((got[:, 0] >= 0).all() and (got[:, 0] <= 360).all(), mech + "/azimuth-range", got=got)
        t2 = np.maximum(tol, 1e-5 * (np.abs(want[:, 1]) > 89))
        m.check((np.abs(got[:, 1] - want[:, 1]) <= t2).all(), mech + "/altitude", got=got, want=want)

    s = m.call(cam.xyz_to_spherical, d * r[:, None], directions=True)
    same(np.asarray(s), np.column_stack((az, alt)), 1e-7, "from-directions")
    s = np.asarray(m.call(cam.xyz_to_spherical, d * r[:, None] + np.asarray(pos)))
    want = np.column_stack((az, alt, r))
    same(s, want, 1e-6 + 1e-7 * np.abs(pos).max() / r, "from-positions")
    if s.shape[1] > 2:
        m.close(s[:, 2], r, "distance", rtol=1e-7, atol=1e-8 * (1 + np.abs(pos).max()) * 1e-1)
    # looking along a spherical direction shows it at the principal point
    cam2 = Camera(imgsz=(20, 30), f=25, c=(1, -2), viewdir=(float(az[0]), float(alt[0]), float(rng.uniform(-180, 180))))
    uv = cam2.xyz_to_uv(cam2.spherical_to_xyz(np.array([[az[0], alt[0]]])), directions=True)
    m.close(uv, [[11, 13]], "optical-axis", atol=1e-9)
