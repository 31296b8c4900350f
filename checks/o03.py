import contextlib
import datetime
import io
import numpy as np
import scipy.optimize
import scipy.sparse
from gmon import META, workload, gen
from gmon.refcam import RefCam, axes
from glimpse import Camera, Image, Observer
from glimpse.optimize import ObserverCameras, RotationMatchesXYZ

META["rule"] = (
    "A case is an observer of 2-6 cameras at one position, rotated by known angles, matches generated along a random connected (or not) "
    "graph of image pairs, anchors, and perturbed initial view directions, aligned by the observer's fit, or by a solver that inspects "
    "the cost and gradient it is handed. Oracle: the true view directions, and the cost written from its documentation."
)
META["require"] = {"fits": 60, "recovered images": 150, "gradients": 100, "failures": 15, "unconnected": 4, "applied": 40}
META["assumptions"] = ["images start within a few degrees of their true view directions", "matches have some noise, as any that are measured, and few outliers (exact matches between anchors put kinks of the cost at the start)"]
NAMES = ("xyz", "viewdir", "imgsz", "f", "c", "k", "p")


def quiet(fn, *args, **kwargs):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*args, **kwargs)


def rays(viewdir, xy):
    right, down, fwd = axes(viewdir)
    d = xy[:, :1] * right + xy[:, 1:] * down + fwd
    return d / np.linalg.norm(d, axis=1, keepdims=True)


class Sequence:
    def __init__(self, rng, spread=None, connected=True, off=1.0, outliers=False):
        n = int(rng.integers(2, 7))
        pos = gen.position(rng)
        sz = gen.imgsz(rng, 100, 1500)
        sz = (sz[0], int(np.clip(sz[1], sz[0] / 2, sz[0] * 2)))
        first = np.array([rng.uniform(-180, 360), rng.uniform(-60, 60), rng.uniform(-180, 180)])
        self.cams, self.truth = [], []
        for i in range(n):
            a = gen.gentle_camera_args(rng, rho=0.1, sz=sz, pos=pos, corr=bool(rng.random() < 0.3))
            f = float(np.clip(a["f"][0], 0.6 * max(sz), 2 * max(sz)))
            a["f"] = (f, f * 1.02)
            a["k"] = tuple(float(np.clip(k, -0.02, 0.02)) for k in a["k"])
            a["p"] = tuple(float(np.clip(k, -0.002, 0.002)) for k in a["p"])
            fov = np.rad2deg(np.arctan(min(sz) / 2 / f))
            a["viewdir"] = tuple(first + rng.uniform(-1, 1, 3) * fov * (spread or float(rng.choice([0.02, 0.3]))))
            self.cams.append(Camera(**a))
            self.truth.append(np.array(a["viewdir"]))
        self.truth = np.array(self.truth)
        self.n = n
        # Pairs of images that are matched
        order = rng.permutation(n)
        pairs = set()
        loose = int(order[-1]) if not connected and n > 2 else None
        linked = [int(i) for i in order if int(i) != loose]
        for k in range(1, len(linked)):
            pairs.add(tuple(sorted((linked[k], linked[int(rng.integers(k))]))))
        for _ in range(int(rng.integers(0, n))):
            i, j = rng.choice(linked, 2, replace=False) if len(linked) > 2 else linked[:2]
            pairs.add(tuple(sorted((int(i), int(j)))))
        self.loose = loose
        self.noise = float(rng.choice([0.02, 0.2]))
        # Angle (degrees) by which noise and outliers may turn an image
        self.tol = np.rad2deg(self.noise / min(sz)) * 8 * (3 if outliers else 1) * n + 1e-4
        self.pairs = {}
        for i, j in pairs:
            a, b = RefCam.of(self.cams[i]), RefCam.of(self.cams[j])
            size = np.array(sz)
            uv = rng.uniform(0.02, 0.98, (60, 2)) * size
            xy = a.undistort(a.xyd_of_uv(uv))
            other, _ = b.project(rays(self.truth[i], xy), directions=True)
            with np.errstate(invalid="ignore"):
                ok = ((other > 0) & (other < size)).all(axis=1)
            uv, other = uv[ok][: int(rng.integers(8, 30))], other[ok] + rng.normal(size=(int(ok.sum()), 2)) * self.noise
            other = other[: len(uv)]
            if len(uv) < 6:
                self.pairs = None
                return
            if outliers and rng.random() < 0.5:
                k = rng.permutation(len(uv))[: max(1, len(uv) // 8)]
                other[k] = rng.uniform(0, 1, (len(k), 2)) * size
            # Either image of a pair may come first
            self.pairs[(i, j) if rng.random() < 0.8 else (j, i)] = (uv, other) if (i, j) in self.pairs or True else None
        self.fixed = {}
        for (i, j), (uv, other) in list(self.pairs.items()):
            if i > j:
                self.pairs[(i, j)] = (other, uv)
        self.start = self.truth + rng.uniform(-1, 1, (n, 3)) * off
        self.anchors = None

    def anchor(self, rng):
        kind = gen.pick(rng, ("default", "one", "some", "all"))
        linked = [i for i in range(self.n) if i != self.loose]
        if kind == "default" and self.loose != 0:
            self.anchors, self.fixed = None, [0]
        else:
            k = {"default": 1, "one": 1, "some": int(rng.integers(1, len(linked))), "all": self.n}[kind]
            self.fixed = sorted(int(i) for i in rng.permutation(linked)[:k]) if k < self.n else list(range(self.n))
            self.anchors = gen.pick(rng, (self.fixed, tuple(self.fixed), np.array(self.fixed)))
        self.start[self.fixed] = self.truth[self.fixed]

    def build(self, rng):
        for cam, v in zip(self.cams, self.start):
            cam.viewdir = v
        t = datetime.datetime(2020, 1, 1)
        images = [Image("none", cam=c, datetime=t + datetime.timedelta(hours=i)) for i, c in enumerate(self.cams)]
        self.observer = Observer(images)
        self.xys = {}
        rows, cols, data = [], [], []
        for (i, j), uvs in self.pairs.items():
            self.xys[i, j] = [(lambda ref, uv: ref.undistort(ref.xyd_of_uv(uv)))(RefCam.of(self.cams[k]), uv) for k, uv in zip((i, j), uvs)]
            form = dict(uvs=uvs) if rng.random() < 0.7 else dict(xys=self.xys[i, j])
            rows.append(i), cols.append(j), data.append(RotationMatchesXYZ((self.cams[i], self.cams[j]), **form))
        grid = np.zeros((self.n, self.n), dtype=object)
        grid[rows, cols] = data
        form = gen.pick(rng, ("grid", "coo"))
        matches = {
            "grid": lambda: grid,
            "coo": lambda: scipy.sparse.coo_matrix(grid),
        }[form]()
        kwargs = {} if self.anchors is None else {"anchors": self.anchors}
        return ObserverCameras(self.observer, matches=matches, **kwargs)

    def state(self):
        return [np.concatenate([np.asarray(getattr(c, n), float) for n in NAMES]) for c in self.cams]

    def cost(self, viewdirs, weight, anchored):
        c = sum(weight / 2 * ((viewdirs[i] - anchored[i]) ** 2).sum() for i in self.fixed)
        for (i, j), (a, b) in self.xys.items():
            c += np.abs(rays(viewdirs[i], a) - rays(viewdirs[j], b)).sum()
        return c


def same(m, s, before, mech):
    m.check(all(np.array_equal(a, b) for a, b in zip(s.state(), before)), mech, actual=[a[3:6] for a in s.state()], expected=[a[3:6] for a in before])


def between(a, b):
    """Largest angle (degrees) between the axes of two view directions."""
    d = np.linalg.norm(np.subtract(axes(a), axes(b)), axis=1)
    return float(np.rad2deg(2 * np.arcsin(d.max() / 2)))


@workload(quick=160, thorough=1500)
def fits(rng, m):
    connected = bool(rng.random() < 0.8)
    outliers = bool(rng.random() < 0.2)
    s = Sequence(rng, connected=connected, off=float(gen.pick(rng, (0.05, 0.5))), outliers=outliers)
    if not s.pairs:
        m.trivial()
        return
    s.anchor(rng)
    model = s.build(rng)
    m.case(n=s.n, pairs=list(s.pairs), anchors=s.fixed, loose=s.loose, outliers=outliers)
    before = s.state()
    m.equal(np.array(model.viewdirs), np.array(s.start), "saved-viewdirs")
    weight = gen.pick(rng, (None, None, 1e4))
    ok, r = m.returns(lambda: quiet(model.fit, **({} if weight is None else {"anchor_weight": weight})), "fit")
    if not ok:
        return
    weight = weight or 1e6
    m.count("fits")
    same(m, s, before, "fit-cameras-untouched")
    x = np.asarray(r.x, float)
    m.must(x.shape == (3 * s.n,), "fit-result", shape=x.shape)
    x = x.reshape(-1, 3)
    anchored = s.start
    m.close(r.fun, s.cost(x, weight, anchored), "fit-cost", rtol=1e-6, atol=1e-7)
    pts = sum(len(a) for a, _ in s.xys.values())
    # The solver may stop short where the cost has a kink: start again from nearby
    free = np.array([i not in s.fixed and i != s.loose for i in range(s.n)])
    for _ in range(8):
        if s.cost(x, weight, anchored) <= s.cost(s.truth, weight, anchored) * 1.001 + 1e-7 * pts:
            break
        m.count("stopped short")
        model.set_cameras(np.where(free[:, None], x + rng.normal(size=x.shape) * 0.1, s.start))
        now = s.state()
        x = np.reshape(quiet(model.fit, anchor_weight=weight).x, (-1, 3))
        same(m, s, now, "fit-again-cameras-untouched")
    m.check(s.cost(x, weight, anchored) <= s.cost(s.truth, weight, anchored) * 1.02 + 1e-6 * pts, "fit-cost-of-truth", got=r.fun, truth=s.cost(s.truth, weight, anchored))
    for i in range(s.n):
        off = between(x[i], s.truth[i])
        if i in s.fixed:
            m.check(float(np.abs(x[i] - s.start[i]).max()) < 10 * pts / weight + 1e-7, "anchor-stays", i=i, x=x[i], start=s.start[i])
        elif i == s.loose:
            m.count("unconnected")
            m.close(x[i], s.start[i], "unconnected-stays", rtol=1e-9, atol=1e-9)
        else:
            m.count("recovered images")
            m.check(off < s.tol, "recovered", i=i, off=off, fun=r.fun, x=x, truth=s.truth)
    # Applying the result
    m.count("applied")
    model.set_cameras(x)
    for c, v, b in zip(s.cams, x, before):
        m.equal(np.array(c.viewdir), v, "applied-viewdir")
        rest = [0, 1, 2] + list(range(6, 20))
        m.equal(np.concatenate([np.asarray(getattr(c, n), float) for n in NAMES])[rest], b[rest], "applied-others")
    if rng.random() < 0.4:
        # Fitting again leaves what was applied
        applied = s.state()
        ok, again = m.returns(lambda: quiet(model.fit), "refit")
        if ok:
            same(m, s, applied, "refit-cameras-untouched")
            for i in range(s.n):
                if i != s.loose:
                    m.check(between(np.reshape(again.x, (-1, 3))[i], s.truth[i]) < s.tol, "refit-recovered", i=i)
    for _ in range(2):
        model.reset_cameras()
        same(m, s, before, "reset")
        s.cams[int(rng.integers(s.n))].viewdir = (1, 2, 3)
    model.reset_cameras()
    same(m, s, before, "reset-outside")


@workload(quick=100, thorough=1000)
def gradients(rng, m):
    """The cost and the gradient handed to the solver."""
    s = Sequence(rng, spread=gen.pick(rng, (0.3, 0.8)), off=gen.pick(rng, (0.5, 5.0)))
    if not s.pairs:
        m.trivial()
        return
    s.anchor(rng)
    s.start = s.start + rng.normal(size=s.start.shape) * 0.1
    model = s.build(rng)
    weight = float(gen.pick(rng, (0.0, 1.0, 100.0, 1e6)))
    m.case(n=s.n, pairs=list(s.pairs), anchors=s.fixed, weight=weight)
    before = s.state()
    anchored = s.start.copy()
    moved = rng.random() < 0.3
    if moved:
        # Anchors stay at the directions the cameras were given with
        model.set_cameras(s.start + rng.normal(size=s.start.shape) * 0.3)
        before = s.state()
    seen = []

    def inspect(fun, x0, args=(), jac=None, **kwargs):
        m.close(x0, np.concatenate([b[3:6] for b in before]), "start", rtol=0, atol=0)
        for k in range(2):
            x = x0 + rng.normal(size=x0.shape) * (0.0 if k == 0 and moved else 0.2)
            c = float(fun(x, *args))
            exp = s.cost(x.reshape(-1, 3), weight, anchored)
            m.close(c, exp, "cost", rtol=1e-9, atol=1e-9)
            g = np.asarray(jac(x, *args), float)
            h = 1e-6
            m.must(g.shape == x.shape, "gradient-shape", shape=g.shape)
            fd = np.array([(s.cost((x + h * e).reshape(-1, 3), weight, anchored) - s.cost((x - h * e).reshape(-1, 3), weight, anchored)) / (2 * h) for e in np.eye(len(x))])
            scale = np.abs(fd).max() + 0.1
            # Finite differences across a kink of the cost are off by one observation
            fd2 = np.array([(s.cost((x + h * e / 8).reshape(-1, 3), weight, anchored) - s.cost((x - h * e / 8).reshape(-1, 3), weight, anchored)) / (h / 4) for e in np.eye(len(x))])
            tol = 1e-3 * min(scale, 1) + 1e-9 * exp / h
            kinked = np.abs(fd - fd2) > tol / 2 + 1e-4 * np.abs(fd)
            m.close(np.where(kinked, 0, g), np.where(kinked, 0, fd2), "gradient", rtol=1e-4, atol=tol * 4, x=x)
            m.count("gradients", len(x))
            seen.append(k)
        return scipy.optimize.OptimizeResult(x=x0 + 1, fun=1.0, success=True, message="", nit=1)

    ok, r = m.returns(lambda: quiet(model.fit, anchor_weight=weight, method=inspect), "solver")
    m.must(ok and len(seen) == 2, "solver-called")
    m.close(r.x, np.concatenate([b[3:6] for b in before]) + 1, "solver-result")
    same(m, s, before, "cameras-untouched")


class Fault(Exception):
    pass


@workload(quick=30, thorough=300)
def failures(rng, m):
    """A fit that fails leaves the cameras as they were."""
    s = Sequence(rng, off=0.5)
    if not s.pairs:
        m.trivial()
        return
    s.anchor(rng)
    model = s.build(rng)
    before = s.state()
    if rng.random() < 0.5:
        model.set_cameras(s.start + rng.normal(size=s.start.shape) * 0.3)
        before = s.state()
    left = int(rng.integers(0, 4))

    def callback(*args, **kwargs):
        nonlocal left
        left -= 1
        if left < 0:
            raise Fault()

    def solver(fun, x0, *args, **kwargs):
        fun(x0 + 0.5)
        raise Fault()

    kind = gen.pick(rng, ("callback", "solver", "size"))
    m.case(n=s.n, kind=kind, left=left)
    m.count("failures")
    if kind == "callback":
        try:
            quiet(model.fit, callback=callback)
        except Fault:
            m.count("interrupted")
    elif kind == "solver":
        m.raises(Fault, lambda: quiet(model.fit, method=solver), "fault")
    else:
        # Internal camera parameters changed after the matches were made
        i = int(rng.integers(s.n))
        if any(i in p for p in s.pairs):
            f = np.array(s.cams[i].f)
            s.cams[i].f = f * 1.1
            before[i][8:10] = s.cams[i].f
            m.raises(ValueError, lambda: quiet(model.fit), "internals")
    same(m, s, before, "failed-cameras-untouched")
