import numpy as np
import matplotlib.pyplot as plt
from gmon import META, workload, gen
from gmon.refcam import RefCam, axes
from glimpse import Camera
from glimpse.optimize import Lines, Matches, Points, RotationMatches, RotationMatchesXY, RotationMatchesXYZ

META["rule"] = (
    "A case is one or two random cameras with control of one type (points, lines, or matches in any of four forms) generated from known "
    "rays, and a history of operations on it (subset, resize through the control or the camera, filter, convert, plot, move the camera). "
    "Oracle: a reference camera model and a record of which observation belongs to which. Non-trivial if there are observations."
)
META["require"] = {
    "points": 2000, "line points": 500, "pairs": 3000, "resizes": 300, "filters": 70, "filtered out": 250, "conversions": 130, "plots": 100,
    "subsets": 500, "moved": 150, "hidden lines": 15, "outside lines": 80, "coordinates only": 60, "weighted": 200,
}
META["assumptions"] = [
    "lines have vertices closer together than the part of the frame they cross, as documented for clipping",
    "filter thresholds are not within 1e-6 of the value of a match",
]
MTYPES = (Matches, RotationMatches, RotationMatchesXY, RotationMatchesXYZ)


def subset(rng, n):
    kind = gen.pick(rng, ("all", "slice", "list", "array", "mask", "reverse"))
    if kind == "all":
        return slice(None), np.arange(n)
    if kind == "slice":
        a, b = sorted(rng.integers(0, n + 1, 2).tolist())
        if a == b:
            a, b = 0, n
        return slice(a, b), np.arange(a, b)
    if kind == "reverse":
        return slice(None, None, -1), np.arange(n)[::-1]
    if kind == "mask":
        mask = rng.random(n) < 0.6
        mask[rng.integers(n)] = True
        return mask, np.flatnonzero(mask)
    i = rng.choice(n, int(rng.integers(1, n + 1)), replace=False)
    return (i.tolist() if kind == "list" else i), i


def rays_in_frame(rng, ref, n, margin=0.02):
    """World rays (unit depth) of pixels within the frame, and their pixels."""
    uv = (margin + (1 - 2 * margin) * rng.random((n, 2))) * np.asarray(ref.imgsz, float)
    xy = ref.undistort(ref.xyd_of_uv(uv))
    right, down, fwd = axes(ref.viewdir)
    return xy[:, :1] * right + xy[:, 1:] * down + fwd, uv


def tolerance(ref):
    return 1e-6 + 1e-8 * max(ref.imgsz) + 1e-12 * max(ref.f)


def resize(rng, cam, base):
    """A new size of a camera with an original size."""
    kind = gen.pick(rng, ("scale", "size", "forced"))
    if kind == "scale":
        return dict(size=float(rng.uniform(0.4, 2.5)))
    if kind == "size":
        k = int(rng.integers(1, 4))
        return dict(size=(int(base[0]) * k, int(base[1]) * k))
    return dict(size=(int(rng.integers(8, 3000)), int(rng.integers(8, 3000))), force=True)


def quiver_of(q):
    d = np.column_stack((q.U, q.V)).astype(float)
    d[np.broadcast_to(np.ma.getmaskarray(np.ma.array(q.U, mask=q.Umask)), len(d))] = np.nan
    return np.column_stack((q.X, q.Y)), d


def judge_plot(rng, m, control, uv, duv, **kwargs):
    """A plot shows the error of each observation, from where it is observed."""
    n = len(uv)
    index, chosen = subset(rng, n)
    plt.close("all")
    fresh = rng.random() < 0.3
    if not fresh:
        plt.figure()
    hide = rng.random() < 0.1
    if hide:
        kwargs = {**kwargs, "unselected": None}
    styles = {}
    for label in ("selected", "unselected"):
        if label not in kwargs and rng.random() < 0.3:
            styles[label] = gen.pick(rng, ("blue", {"color": "blue"}))
    ok, out = m.returns(lambda: control.plot(index=index, **styles, **kwargs), "plot", index=index)
    if ok:
        m.count("plots")
        if fresh:
            # New plots show the whole image
            cam = control.cams[kwargs.get("cam", 0) if isinstance(kwargs.get("cam", 0), int) else control.cams.index(kwargs["cam"])] if hasattr(control, "cams") else control.cam
            m.close([*plt.xlim(), *plt.ylim()], [0, cam.imgsz[0], cam.imgsz[1], 0], "plot-limits")
        rest = np.delete(np.arange(n), chosen)
        for label, ids in (("selected", chosen), ("unselected", rest)):
            if not len(ids) or (hide and label == "unselected"):
                m.check(out[label] is None, "plot-nothing")
                continue
            m.must(out[label] is not None, "plot-quiver")
            a, d = quiver_of(out[label])
            m.close(a, uv[ids], "plot-origins", rtol=1e-7, atol=1e-4)
            m.close(d, duv[ids], "plot-errors", rtol=1e-6, atol=1e-3)
            if label in styles:
                m.equal(out[label].get_facecolor()[0], (0, 0, 1, 1), "plot-color", label=label)
    plt.close("all")
    return out if ok else None


# ---- points


@workload(quick=260, thorough=4000)
def points(rng, m):
    directions = bool(rng.random() < 0.3)
    args = gen.gentle_camera_args(rng, corr=not directions)
    if directions:
        args["correction"] = False
    cam = Camera(**args)
    ref = RefCam.of(cam)
    n = int(rng.integers(1, 25))
    rays, truth = rays_in_frame(rng, ref, n)
    depth = 10 ** rng.uniform(0, 3, (n, 1))
    # Points behind the camera have no image coordinates
    behind = rng.random(n) < 0.1
    rays[behind] *= -1
    xyz = rays * depth if directions else rays * depth + np.asarray(ref.xyz)
    uv = truth + rng.normal(size=truth.shape) * gen.pick(rng, (0.0, 3.0))
    if rng.random() < 0.3:
        uv, xyz = [tuple(i) for i in uv.tolist()], [tuple(i) for i in xyz.tolist()]
    given = np.array(uv, float), np.array(xyz, float)
    c = Points(cam, uv, xyz, directions=directions)
    m.case(args=args, n=n, directions=directions)
    m.count("points", n)
    base = np.array(ref.imgsz, float)

    def state(label):
        now = RefCam.of(cam)
        scale = np.asarray(now.imgsz, float) / base
        tol = tolerance(now) + (0 if directions else 1e-13 * np.abs(ref.xyz).max() * max(now.f))
        exp, _ = now.project(given[1], directions=directions)
        m.equal(c.size, n, label + "size")
        m.close(c.predicted(), exp, label + "predicted", rtol=1e-9, atol=tol)
        m.close(c.observed(), given[0] * scale, label + "observed", rtol=1e-9, atol=1e-6)
        index, ids = subset(rng, n)
        m.count("subsets")
        m.close(c.predicted(index=index), exp[ids], label + "predicted-subset", rtol=1e-9, atol=tol, index=index)
        m.close(c.observed(index=index), (given[0] * scale)[ids], label + "observed-subset", rtol=1e-9, atol=1e-6, index=index)

    state("initial-")
    for _ in range(int(rng.integers(1, 5))):
        op = gen.pick(rng, ("resize", "resize-camera", "turn", "move", "focal", "plot", "resize-camera"))
        if op == "resize":
            m.count("resizes")
            c.resize(**resize(rng, cam, base))
        elif op == "resize-camera":
            m.count("resizes")
            for _ in range(int(rng.integers(1, 3))):
                cam.resize(**resize(rng, cam, base))
            c.resize()
        elif op == "turn":
            cam.viewdir = np.asarray(cam.viewdir) + rng.normal(size=3)
            m.count("moved")
        elif op == "focal":
            cam.f = cam.f * rng.uniform(0.9, 1.1)
        elif op == "move":
            m.count("moved")
            old = cam.xyz.copy()
            step = rng.normal(size=3) * 0.1 + 0.1
            if rng.random() < 0.5:
                # Along a single axis
                step *= np.arange(3) == rng.integers(3)
            cam.xyz = old + step
            if directions:
                m.raises(ValueError, c.predicted, "moved-from-rays")
                cam.xyz = old
        elif not behind.all():
            now = RefCam.of(cam)
            exp, _ = now.project(given[1], directions=directions)
            if np.abs(np.nan_to_num(exp)).max() < 1e5:
                o = c.observed()
                judge_plot(rng, m, c, o, exp - o)
        state(op + "-")
    m.equal(np.array(uv, float), given[0], "input-uv")
    m.equal(np.array(xyz, float), given[1], "input-xyz")


@workload(quick=60, thorough=300)
def points_rejected(rng, m):
    cam = Camera(**gen.camera_args(rng))
    n = int(rng.integers(1, 6))
    m.case(n=n)
    m.raises(ValueError, lambda: Points(cam, np.zeros((n, 2)), np.zeros((n + 1, 3))), "lengths")
    other = Camera(**gen.camera_args(rng))
    other.xyz = cam.xyz
    uv = np.zeros((n, 2)) + 3
    m.raises(ValueError, lambda: Matches((cam, cam), (uv, uv)), "same-camera")
    m.raises(ValueError, lambda: Matches((cam, other), (uv, uv[:-1])), "pair-lengths")
    m.raises(ValueError, lambda: Matches((cam, other), (uv, uv, uv)), "three-sets")
    for t in MTYPES[1:]:
        m.raises(ValueError, lambda: t((cam, other)), "no-coordinates")
        m.raises(ValueError, lambda: t((cam, cam), uvs=(uv, uv)), "same-camera-rotation")
    other.xyz = np.asarray(cam.xyz) + (0, 1, 0)
    m.raises(ValueError, lambda: Matches((cam, other), (uv, uv)), "positions")


# ---- lines


def nearest(o, line):
    d = np.hypot(*(o[:, None, :] - line[None]).transpose(2, 0, 1))
    return d.min(axis=1)


@workload(quick=130, thorough=2000)
def lines(rng, m):
    directions = bool(rng.random() < 0.3)
    args = gen.gentle_camera_args(rng, rho=0.15, sz=gen.imgsz(rng, 40, 400), corr=False, pos=tuple(rng.uniform(-100, 100, 3)))
    if rng.random() < 0.3:
        # Pixels far from square
        args["f"] = tuple(np.array(args["f"]) * (rng.permutation([1.0, rng.uniform(2, 4)])))
    cam = Camera(**args)
    ref = RefCam.of(cam)
    if ref.strength() > 0.2:
        m.trivial()
        return
    base = np.array(ref.imgsz, float)
    right, down, fwd = axes(ref.viewdir)
    density = float(gen.pick(rng, (0.3, 1, 1, 3)))
    size = float(min(base))
    xyzs, polys = [], []
    for _ in range(int(rng.integers(1, 4))):
        # A line across (and beyond) the frame, in undistorted camera coordinates
        nv = int(rng.integers(8, 16))
        a, b = (rng.uniform(-0.9, 0.9, 2) * base / 2 / ref.f for _ in range(2))
        t = np.sort(rng.uniform(-0.7, 1.7, nv))
        t[[0, -1]] = -0.7, 1.7
        t = np.sort(np.concatenate((t, np.linspace(0, 1, 9))))
        xy = a + t[:, None] * (b - a) + np.cumsum(rng.normal(size=(len(t), 2)), axis=0) * 0.02 * size / max(ref.f)
        z = np.exp(np.cumsum(rng.normal(size=(len(t), 1)) * 0.2, axis=0) + rng.uniform(0, 4))
        rays = (xy[:, :1] * right + xy[:, 1:] * down + fwd) * z
        s = np.linspace(0, 1, 60)[:, None]
        dense = np.vstack([xy[i] + s * (xy[i + 1] - xy[i]) for i in range(len(xy) - 1)])
        polys.append(np.column_stack(ref.distort_xy(*dense.T)) * ref.f + base / 2 + ref.c)
        xyzs.append(rays if directions else rays + ref.xyz)
    if rng.random() < 0.3:
        # A line behind the camera
        back = -(fwd + rng.normal(size=(5, 3)) * 0.3) * 50
        xyzs.insert(int(rng.integers(len(xyzs) + 1)), back if directions else back + ref.xyz)
    poly = np.vstack(polys)
    inside = ((poly > 0.06 * base) & (poly < 0.94 * base)).all(axis=1)
    ok = ((poly > 0) & (poly < base)).all(axis=1)
    if inside.sum() < 5:
        m.trivial()
        return
    nu = int(rng.integers(1, 4))
    noise = float(gen.pick(rng, (0, 0.01)) * size)
    uvs = []
    for _ in range(nu):
        p = poly[rng.choice(np.flatnonzero(inside), int(rng.integers(1, 7)))]
        uvs.append(p + rng.uniform(-1, 1, p.shape) * noise)
    given = [u.copy() for u in uvs]
    c = Lines(cam, uvs, xyzs, directions=directions, density=density)
    o = np.vstack(given)
    m.case(args=args, n=len(o), lines=len(xyzs), directions=directions, density=density)
    m.count("line points", len(o))
    m.equal(c.size, len(o), "size")

    def state(label, scale):
        obs = o * scale
        m.close(c.observed(), obs, label + "observed", rtol=1e-9, atol=1e-6)
        m.close(np.vstack(c.uvs), obs, label + "line-vertices", rtol=1e-9, atol=1e-6)
        index, ids = subset(rng, len(o))
        m.count("subsets")
        p = c.predicted()
        m.must(p.shape == obs.shape, label + "shape", shape=p.shape)
        m.close(c.predicted(index=index), p[ids], label + "predicted-subset", rtol=1e-9, atol=1e-6)
        line = poly * scale
        step = np.hypot(*np.diff(line, axis=0).T)
        dense = np.percentile(step, 99) + 1e-6
        off = nearest(p, line)
        m.check(bool((off <= dense).all()), label + "on-line", off=off, dense=dense)
        best = nearest(obs, line[ok])
        got = np.hypot(*(p - obs).T)
        # Projected lines have a point at least every 1 / density pixels (stretched by distortion and scale)
        gap = 0.9 / density + 1e-3
        m.check(bool((got <= best + gap).all()), label + "nearest", got=got, best=best, gap=gap)
        m.check(bool((got >= best - dense).all()), label + "not-nearer", got=got, best=best)
        return p

    state("initial-", 1.0)
    scale = 1.0
    for _ in range(int(rng.integers(0, 3))):
        k = float(rng.uniform(0.5, 2))
        m.count("resizes")
        if rng.random() < 0.5:
            c.resize(k)
        else:
            cam.resize(k)
            c.resize()
        scale = cam.imgsz / base
        state("resized-", scale)
    if rng.random() < 0.4:
        obs = c.observed()
        p = c.predicted()
        kw = {}
        for key in ("observed", "predicted"):
            style = gen.pick(rng, ("default", "none", "color", "style"))
            if style != "default":
                kw[key] = {"none": None, "color": "orange", "style": {"color": "orange", "linewidth": 3}}[style]
        out = judge_plot(rng, m, c, obs, p - obs, **kw)
        if out is not None:
            for key in ("observed", "predicted"):
                if key in kw and kw[key] is None:
                    m.check(out[key] is None, "plot-nothing", key=key)
                elif key in kw:
                    m.check(all(a.get_color() == "orange" for a in out[key]), "plot-color", key=key)
                    if isinstance(kw[key], dict):
                        m.check(all(a.get_linewidth() == 3 for a in out[key]), "plot-width", key=key)
            if out["observed"] is not None:
                m.equal(len(out["observed"]), len(uvs), "plot-observed-lines")
                for art, u in zip(out["observed"], given):
                    m.close(art.get_xydata(), u * scale, "plot-observed-line", rtol=1e-9, atol=1e-6)
            if out["predicted"] is not None:
                shown = np.vstack([a.get_xydata() for a in out["predicted"]])
                m.check(bool((nearest(p, shown) < 1e-6).all()), "plot-predicted-line")
    # Directions depend on the position of the camera
    if directions:
        was = cam.xyz.copy()
        for step in (np.ones(3), np.arange(3) == rng.integers(3)):
            cam.xyz = was + step
            m.raises(ValueError, c.predicted, "moved-from-rays", step=step)
        cam.xyz = was
    # Turned all the way around, the lines that were in front are not seen
    if rng.random() < 0.4 and len(xyzs) == len(polys):
        cam.viewdir = (cam.viewdir[0] + 180, -cam.viewdir[1], -cam.viewdir[2])
        m.count("hidden lines")
        ok2, p = m.returns(c.predicted, "hidden-lines")
        if ok2:
            m.check(bool(np.isnan(p).all()) and p.shape == o.shape, "hidden-lines-missing", p=p)
    for u, g in zip(uvs, given):
        m.equal(u, g, "input-uvs")


# ---- matches


class Pairs:
    """Two cameras at the same position, and the rays that both see."""

    def __init__(self, rng, m, weights=None):
        pos = gen.position(rng)
        a = gen.gentle_camera_args(rng, rho=0.2, pos=pos, corr=False)
        ref = RefCam(**a)
        for _ in range(200):
            b = gen.gentle_camera_args(rng, rho=0.2, pos=pos, corr=False)
            fov = np.rad2deg(np.arctan(min(a["imgsz"]) / 2 / max(a["f"])))
            b["viewdir"] = tuple(np.array(a["viewdir"]) + rng.normal(size=3) * 0.3 * fov)
            rays, uva = rays_in_frame(rng, ref, 60, 0.05)
            uvb, _ = RefCam(**b).project(rays, directions=True)
            size = np.array(b["imgsz"])
            with np.errstate(invalid="ignore"):
                both = ((uvb > 0) & (uvb < size)).all(axis=1)
            if both.sum() >= 4:
                break
        else:
            both = np.zeros(60, bool)
        self.args = [a, b]
        self.cams = [Camera(**a), Camera(**b)]
        ids = np.flatnonzero(both)[: int(rng.integers(4, 40))]
        self.ok = len(ids) > 0
        if not self.ok:
            return
        self.n = len(ids)
        noise = rng.normal(size=(self.n, 2)) * gen.pick(rng, (0.0, 0.02)) * min(b["imgsz"]) * (rng.random((self.n, 1)) < 0.5)
        self.exact = not noise.any()
        self.uvs = [uva[ids].copy(), np.clip(uvb[ids] + noise, 0, size)]
        self.weights = rng.random(self.n) + 0.5 if rng.random() < 0.6 else None
        self.base = [np.array(x["imgsz"], float) for x in self.args]
        m.count("pairs", self.n)
        m.case(cams=self.args, n=self.n, exact=self.exact, weights=self.weights is not None)

    def refs(self):
        return [RefCam.of(c) for c in self.cams]

    def scales(self):
        return [c.imgsz / b for c, b in zip(self.cams, self.base)]

    def observed(self):
        return [u * s for u, s in zip(self.uvs, self.scales())]

    def xys(self):
        """Undistorted camera coordinates of each point."""
        return [r.undistort(r.xyd_of_uv(u)) for r, u in zip(self.refs(), self.observed())]

    def rays(self):
        out = []
        for r, xy in zip(self.refs(), self.xys()):
            right, down, fwd = axes(r.viewdir)
            out.append(xy[:, :1] * right + xy[:, 1:] * down + fwd)
        return out

    def predicted(self, i):
        """Where the points of the other camera are in this one, in pixels and in camera coordinates."""
        r = self.refs()[i]
        ray = self.rays()[1 - i]
        right, down, fwd = axes(r.viewdir)
        z = ray @ fwd
        return r.project(ray, directions=True)[0], np.column_stack((ray @ right / z, ray @ down / z))


def judge(rng, m, p, c, keep, label):
    """A set of matches against the pairs it should hold, in order."""
    kind = type(c)
    refs = p.refs()
    tol = max(tolerance(r) for r in refs) + 1e-7 * max(max(r.f) for r in refs)
    m.equal(c.size, len(keep), label + "size")
    if c.size != len(keep):
        return
    m.check(c.cams[0] is p.cams[0] and c.cams[1] is p.cams[1], label + "cameras")
    if p.weights is None:
        m.check(c.weights is None, label + "no-weights")
    else:
        m.close(c.weights, p.weights[keep], label + "weights", rtol=1e-12, atol=0)
    obs, xys = p.observed(), p.xys()
    if c.uvs is not None:
        for i in (0, 1):
            m.close(c.uvs[i], obs[i][keep], label + "uvs", rtol=1e-9, atol=tol)
    if kind is not Matches:
        for i in (0, 1):
            m.close(c.xys[i], xys[i][keep], label + "xys", rtol=1e-6, atol=1e-7)
    if not len(keep):
        return
    index, ids = subset(rng, len(keep))
    m.count("subsets")
    for i in (0, 1):
        # The first camera by default
        who = () if i == 0 and rng.random() < 0.4 else (p.cams[i],) if rng.random() < 0.5 else (i,)
        puv, pxy = p.predicted(i)
        if kind is RotationMatchesXYZ:
            ray = p.rays()[i][keep]
            ray = ray / np.linalg.norm(ray, axis=1, keepdims=True)
            m.close(c.predicted(*who), ray, label + "rays", rtol=1e-6, atol=1e-7)
            m.close(c.predicted(*who, index=index), ray[ids], label + "rays-subset", rtol=1e-6, atol=1e-7)
            m.raises(NotImplementedError, lambda: c.observed(*who), label + "observed-disabled")
        elif kind is RotationMatchesXY:
            m.close(c.predicted(*who), pxy[keep], label + "predicted-xy", rtol=1e-6, atol=1e-7)
            m.close(c.predicted(*who, index=index), pxy[keep][ids], label + "predicted-xy-subset", rtol=1e-6, atol=1e-7)
            m.close(c.observed(*who), xys[i][keep], label + "observed-xy", rtol=1e-6, atol=1e-7)
            m.close(c.observed(*who, index=index), xys[i][keep][ids], label + "observed-xy-subset", rtol=1e-6, atol=1e-7)
        else:
            m.close(c.predicted(*who), puv[keep], label + "predicted", rtol=1e-7, atol=tol)
            m.close(c.predicted(*who, index=index), puv[keep][ids], label + "predicted-subset", rtol=1e-7, atol=tol)
            m.close(c.observed(*who), obs[i][keep], label + "observed", rtol=1e-9, atol=tol)
            m.close(c.observed(*who, index=index), obs[i][keep][ids], label + "observed-subset", rtol=1e-9, atol=tol)
    if p.exact and kind is RotationMatchesXYZ:
        m.close(c.predicted(0), c.predicted(1), label + "exact", rtol=1e-6, atol=1e-6)
    elif p.exact:
        t = 1e-6 if kind is RotationMatchesXY else 2 * tol
        for i in (0, 1):
            m.close(c.predicted(i), c.observed(i), label + "exact", rtol=1e-7, atol=t)


def apart(rng, values):
    """A threshold that is not near any value."""
    v = np.sort(values[np.isfinite(values)])
    if not len(v) or rng.random() < 0.1:
        return float(rng.uniform(0.5, 2) * (v[-1] if len(v) else 1) + 1e-3)
    i = int(rng.integers(len(v)))
    lo, hi = v[i], v[i + 1] if i + 1 < len(v) else v[i] + 1
    return float((lo + hi) / 2) if hi - lo > 1e-4 * max(1, hi) else float(v[-1] + 1)


def filtered(rng, p, keep):
    """Random arguments of filter and the pairs which pass."""
    kwargs, sel = {}, keep.copy()
    i = int(rng.integers(2))
    if p.weights is not None:
        w = p.weights[sel]
        passed = np.ones(len(sel), bool)
        if rng.random() < 0.4:
            n = int(rng.integers(1, len(sel) + 4))
            kwargs["n_best"] = n
            passed[np.argsort(-w, kind="stable")[n:]] = False
        if rng.random() < 0.4 and len(sel):
            # A weight equal to the least is kept
            kwargs["min_weight"] = apart(rng, w) if rng.random() < 0.6 else float(gen.pick(rng, w))
            passed &= w >= kwargs["min_weight"]
        sel = sel[passed]
    kwargs["cam"] = i if rng.random() < 0.5 else p.cams[i]
    obs = p.observed()
    scaled = bool(rng.random() < 0.4)
    width = float(p.cams[i].imgsz[0])
    if scaled:
        kwargs["scaled"] = True
    unit = width if scaled else 1.0
    if rng.random() < 0.5:
        e = np.hypot(*(p.predicted(i)[0] - obs[i])[sel].T) if len(sel) else np.zeros(0)
        t = apart(rng, e)
        if len(e) and np.abs(e - t).min() < 1e-4:
            t = float(e.max() + 1)
        kwargs["max_error"] = t / unit
        sel = sel[e <= t]
    if rng.random() < 0.5:
        scale = p.cams[i].imgsz / p.cams[1 - i].imgsz
        d = np.hypot(*(obs[1 - i] * scale - obs[i])[sel].T) if len(sel) else np.zeros(0)
        t = apart(rng, d)
        kwargs["max_distance"] = t / unit
        sel = sel[d <= t]
    return kwargs, sel


@workload(quick=420, thorough=6000)
def matches(rng, m):
    p = Pairs(rng, m)
    if not p.ok:
        m.trivial()
        return
    kind = MTYPES[int(rng.integers(4))]
    keep = np.arange(p.n)
    w = None if p.weights is None else p.weights.copy()
    src = [u.copy() for u in p.uvs]
    cams = tuple(p.cams) if rng.random() < 0.5 else p.cams
    if p.weights is not None:
        m.count("weighted")
    only = kind is not Matches and rng.random() < 0.5
    if only:
        m.count("coordinates only")
        xys = p.xys()
        ok, c = m.returns(lambda: kind(cams, xys=xys, weights=w), "from-camera-coordinates/" + kind.__name__)
        if not ok:
            return
    else:
        c = kind(cams, uvs=src, weights=w)
    m.case(kind=kind.__name__, only=only)
    judge(rng, m, p, c, keep, "initial-")
    for _ in range(int(rng.integers(1, 6))):
        op = gen.pick(rng, ("filter", "convert", "convert", "resize", "resize-cameras", "turn", "plot", "clear", "changed"))
        label = op + "-"
        if op == "filter":
            kwargs, new = filtered(rng, p, keep)
            m.count("filters")
            m.count("filtered out", len(keep) - len(new))
            if p.weights is None:
                m.raises(ValueError, lambda: c.filter(n_best=3), "filter-without-weights")
            ok, _ = m.returns(lambda: c.filter(**kwargs), "filter/" + type(c).__name__, kwargs=kwargs)
            if not ok:
                return
            keep = new
        elif op == "convert":
            m.count("conversions")
            new = MTYPES[int(rng.integers(4))]
            old = type(c)
            ok, d = m.returns(lambda: c.to_type(new), f"convert/{old.__name__}-{new.__name__}")
            if not ok:
                return
            m.check(type(d) is new, "converted-type")
            if new is old:
                m.check(d is c, "same-type")
            elif len(keep):
                # The original is left as it was, whatever is done to the new
                judge(rng, m, p, c, keep, "converted-from-")
                if rng.random() < 0.3:
                    kwargs, part = filtered(rng, p, keep)
                    e = c.to_type(new)
                    e.filter(**kwargs)
                    judge(rng, m, p, e, part, "filtered-copy-")
                    judge(rng, m, p, c, keep, "copied-from-")
            c = d
        elif op == "resize":
            m.count("resizes")
            kwargs = dict(size=float(rng.uniform(0.5, 2)))
            ok, _ = m.returns(lambda: c.resize(**kwargs), "resize/" + type(c).__name__)
            if not ok:
                return
        elif op == "resize-cameras":
            m.count("resizes")
            for i in (0, 1):
                if rng.random() < 0.7:
                    p.cams[i].resize(**resize(rng, p.cams[i], p.base[i]))
            ok, _ = m.returns(c.resize, "resize/" + type(c).__name__)
            if not ok:
                return
        elif op == "turn":
            i = int(rng.integers(2))
            p.cams[i].viewdir = np.asarray(p.cams[i].viewdir) + rng.normal(size=3) * 0.01
            m.count("moved")
            p.exact = False
        elif op == "clear":
            if type(c) in MTYPES[2:]:
                c.uvs = None
        elif op == "changed":
            cam = p.cams[int(rng.integers(2))]
            m.count("moved")
            old = cam.xyz.copy()
            cam.xyz = old + (1 if rng.random() < 0.5 else np.arange(3) == rng.integers(3))
            m.raises(ValueError, lambda: c.predicted(int(rng.integers(2))), "different-positions")
            cam.xyz = old
            if type(c) is not Matches:
                name = gen.pick(rng, ("f", "c", "k", "p"))
                old = getattr(cam, name).copy()
                new = old.copy()
                j = int(rng.integers(len(new)))
                new[j] = new[j] * 1.01 if name == "f" else new[j] + (3.0 if name == "c" else 1e-3)
                setattr(cam, name, new)
                m.raises(ValueError, lambda: c.predicted(int(rng.integers(2))), "internals-changed", name=name, j=j)
                setattr(cam, name, old)
        elif len(keep):
            i = int(rng.integers(2))
            if type(c) in MTYPES[2:]:
                m.raises(NotImplementedError, lambda: c.plot(i), "plot-disabled")
            else:
                o = p.observed()[i][keep]
                which = {} if i == 0 and rng.random() < 0.4 else {"cam": i if rng.random() < 0.5 else p.cams[i]}
                judge_plot(rng, m, c, o, p.predicted(i)[0][keep] - o, **which)
        judge(rng, m, p, c, keep, label)
    # What was given stays as it was
    for a, b in zip(src, p.uvs):
        m.equal(a, b, "input-uvs")
    if w is not None:
        m.equal(w, p.weights, "input-weights")


@workload(quick=60, thorough=600)
def lines_outside(rng, m):
    """Lines that are in front of the camera but outside the frame: predictions are still on the nearest of them."""
    directions = bool(rng.random() < 0.3)
    args = gen.gentle_camera_args(rng, rho=0.1, sz=gen.imgsz(rng, 40, 400), corr=False, pos=tuple(rng.uniform(-100, 100, 3)))
    args["k"], args["p"] = (0.0,) * 6, (0.0, 0.0)
    cam = Camera(**args)
    ref = RefCam.of(cam)
    right, down, fwd = axes(ref.viewdir)
    base = np.array(ref.imgsz, float)
    xyzs, verts = [], []
    for _ in range(int(rng.integers(1, 5))):
        # Beyond one side of the frame
        side, axis = gen.pick(rng, (-1, 1)), int(rng.integers(2))
        uv = rng.uniform(-1, 2, (int(rng.integers(2, 8)), 2)) * base
        out = rng.uniform(0.1, 1.5, len(uv)) * base[axis]
        uv[:, axis] = base[axis] + out if side > 0 else -out
        xy = (uv - base / 2 - ref.c) / ref.f
        z = 10 ** rng.uniform(0, 2, (len(uv), 1))
        rays = (xy[:, :1] * right + xy[:, 1:] * down + fwd) * z
        xyzs.append(rays if directions else rays + ref.xyz)
        verts.append(uv)
    obs = rng.random((int(rng.integers(1, 9)), 2)) * base
    c = Lines(cam, [obs], xyzs, directions=directions)
    m.case(args=args, n=len(obs), lines=len(xyzs), directions=directions)
    m.count("outside lines", len(xyzs))
    ok, p = m.returns(c.predicted, "outside-lines")
    if not ok:
        return
    v = np.vstack(verts)
    best = nearest(obs, v)
    got = np.hypot(*(p - obs).T)
    tol = tolerance(ref) + 1e-6 * np.abs(v).max()
    m.check(bool((got <= best + tol).all()), "outside-nearest-vertex", got=got, best=best)
    # On one of the lines
    s = np.linspace(0, 1, 400)[:, None]
    dense = np.vstack([a + s * (b - a) for l in verts for a, b in zip(l[:-1], l[1:])])
    step = max(np.hypot(*(b - a)) for l in verts for a, b in zip(l[:-1], l[1:])) / 399
    m.check(bool((nearest(p, dense) <= step + tol).all()), "outside-on-line")
