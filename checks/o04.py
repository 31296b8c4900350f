import contextlib
import io
import itertools
import math
import numpy as np
import matplotlib.pyplot as plt
from gmon import META, workload, gen
from gmon.refcam import RefCam, axes
from glimpse import Camera
from glimpse.optimize import Cameras, Points, Polynomial, ransac

META["rule"] = (
    "A case is a data set with a random share of outliers, and a random choice of sample size, tolerance, inlier threshold and number of "
    "iterations, fit by random sample consensus to polynomials, to models that record what they are asked (and sometimes fail), and to "
    "cameras. Oracle: enumeration of all samples, and the structure the data were generated from."
)
META["require"] = {
    "runs": 300, "samples": 4000, "rejected": 60, "exhausted": 60, "recovered": 80, "cameras": 8, "failed fits": 100, "boundary": 30, "polynomials": 80,
}
META["assumptions"] = ["no error is within 1e-9 of the tolerance"]


def quiet(fn, *args, **kwargs):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*args, **kwargs)


def lsq(xy, index, deg):
    x, y = xy[index].T
    return np.polyfit(x, y, deg)


def errors(xy, params):
    y = np.zeros(len(xy))
    for c in params:
        y = y * xy[:, 0] + c
    return np.abs(y - xy[:, 1])


class Recorder:
    """A polynomial model that records the fits and errors it is asked for."""

    def __init__(self, xy, deg, fails=lambda index: False):
        self.xy, self.deg, self.fails = xy, deg, fails
        self.fits, self.kwargs = [], []
        self.calls = []

    @property
    def size(self):
        return len(self.xy)

    def fit(self, index=slice(None), **kwargs):
        full = np.arange(self.size)
        index = full[index]
        self.calls.append(("fit", tuple(index)))
        self.kwargs.append(kwargs)
        if self.fails(frozenset(index.tolist())):
            return None
        return lsq(self.xy, index, self.deg)

    def errors(self, params, index=slice(None)):
        full = np.arange(self.size)
        self.calls.append(("errors", tuple(full[index])))
        return errors(self.xy, params)[index]


def data(rng, size, deg, share, noise, out=(8, 40)):
    """Points of a polynomial, with a share of outliers."""
    coeffs = rng.uniform(-2, 2, deg + 1)
    x = (np.arange(size) + rng.uniform(0.1, 0.9, size)) * 10 / size - 5
    xy = np.column_stack((x, np.polyval(coeffs, x) + rng.uniform(-1, 1, size) * noise))
    n = min(int(round(share * size)), size)
    bad = rng.permutation(size)[:n]
    xy[bad, 1] += rng.choice([-1, 1], n) * rng.uniform(*out, n)
    good = np.setdiff1d(np.arange(size), bad)
    perm = rng.permutation(size)
    where = np.empty(size, int)
    where[perm] = np.arange(size)
    return xy[perm], np.sort(where[good]), coeffs


def consensus(model, n, max_error, min_inliers, margin=1e-9):
    """All acceptable consensus sets, and whether any error is too close to call."""
    sets, close = {}, False
    for s in itertools.combinations(range(model.size), n):
        if model.fails(frozenset(s)):
            continue
        e = errors(model.xy, lsq(model.xy, list(s), model.deg))
        rest = np.setdiff1d(np.arange(model.size), s)
        close |= bool((np.abs(e[rest] - max_error) < margin).any())
        also = rest[e[rest] < max_error]
        # More than the minimum, as its documentation's example requires
        if len(also) > min_inliers:
            key = frozenset(s) | frozenset(also.tolist())
            if key not in sets and not model.fails(key):
                p = lsq(model.xy, sorted(key), model.deg)
                sets[key] = p, errors(model.xy, p)[sorted(key)].mean()
    return sets, close


def judge_samples(m, model, n, iterations):
    """Samples are of the size asked for, of different members, and never repeat."""
    drawn, last = [], None
    for kind, index in model.calls:
        if kind == "fit" and len(index) == n:
            m.check(len(set(index)) == n, "sample-members", index=index)
            key = frozenset(index)
            # A sample that is its own consensus set may be fit again
            if key != last:
                drawn.append(key)
            last = key
        elif kind == "fit":
            m.check(len(set(index)) == len(index) > n, "consensus-members", index=index)
    total = math.comb(model.size, n)
    m.count("samples", len(drawn))
    m.check(len(set(drawn)) == len(drawn), "sample-repeats", drawn=len(drawn), different=len(set(drawn)))
    m.check(len(set(drawn)) == min(iterations, total), "sample-count", drawn=len(set(drawn)), iterations=iterations, total=total)
    if iterations >= total:
        m.count("exhausted")
    return drawn


@workload(quick=260, thorough=4000)
def exhaustive(rng, m):
    """All samples are drawn: the best acceptable consensus is found, or there is none."""
    deg = int(rng.integers(0, 3))
    n = deg + 1 + int(rng.random() < 0.4)
    size = int(rng.integers(n + 1, 11 if n < 4 else 9))
    noise = float(gen.pick(rng, (0.0, 0.05, 0.3)))
    xy, good, coeffs = data(rng, size, deg, float(rng.uniform(0, 0.6)), noise, out=gen.pick(rng, ((8, 40), (0.2, 3))))
    max_error = float(rng.uniform(0.4, 1.2))
    min_inliers = int(rng.integers(0, size - n + 1)) if rng.random() < 0.7 else max(0, len(good) - n - 1)
    chance = float(gen.pick(rng, (0, 0, 0.2)))
    salt = int(rng.integers(1 << 30))
    broken = {}

    def fails(key):
        if not chance:
            return False
        if key not in broken:
            broken[key] = np.random.default_rng([salt, *sorted(key)]).random() < chance
        return broken[key]

    model = Recorder(xy, deg, fails)
    total = math.comb(size, n)
    iterations = total + int(rng.integers(0, 50))
    m.case(size=size, n=n, deg=deg, max_error=max_error, min_inliers=min_inliers, good=len(good), fails=chance)
    sets, close = consensus(model, n, max_error, min_inliers)
    if close:
        m.trivial()
        return
    before = xy.copy()
    np.random.seed(int(rng.integers(1 << 31)))
    extra = {"tag": 1} if rng.random() < 0.5 else {}
    m.count("runs")
    if not sets:
        m.count("rejected")
        m.raises(ValueError, lambda: ransac(model, n=n, max_error=max_error, min_inliers=min_inliers, iterations=iterations, **extra), "rejected")
    else:
        ok, r = m.returns(lambda: ransac(model, n=n, max_error=max_error, min_inliers=min_inliers, iterations=iterations, **extra), "accepted", sets=len(sets))
        if not ok:
            return
        params, inliers = r
        e = errors(xy, params)
        if (np.abs(e - max_error) > 1e-9).all():
            m.equal(sorted(np.asarray(inliers).tolist()), np.flatnonzero(e < max_error).tolist(), "inliers", errors=e)
            m.equal(len(set(np.asarray(inliers).tolist())), len(inliers), "inliers-once")
        best = min(v for _, v in sets.values())
        near = [p for p, v in sets.values() if v <= best + 1e-9]
        m.check(any(np.allclose(params, p, rtol=1e-6, atol=1e-6) for p in near), "best-consensus", params=params, best=near[:3], sets=len(sets))
    judge_samples(m, model, n, iterations)
    m.check(all(k == extra for k in model.kwargs), "fit-arguments")
    m.count("failed fits", sum(broken.values()))
    m.equal(xy, before, "data-unchanged")


@workload(quick=150, thorough=2000)
def structure(rng, m):
    """A consensus that outvotes the outliers is found among many points."""
    deg = int(rng.integers(0, 3))
    n = deg + 1 + int(rng.integers(0, 2))
    size = int(rng.integers(20, 120))
    share = float(rng.uniform(0, 0.45))
    noise = float(gen.pick(rng, (0.0, 0.01, 0.1)))
    xy, good, coeffs = data(rng, size, deg, share, noise)
    # Samples that are spread enough agree with all others
    max_error = 0.01 + noise * 12
    outside = np.abs(errors(xy, coeffs)[np.setdiff1d(np.arange(size), good)])
    if len(outside) and outside.min() < 2 * max_error:
        m.trivial()
        return
    min_inliers = max(0, int(0.7 * len(good)) - n)
    chance = (1 - share) ** n * 0.3
    iterations = int(np.ceil(np.log(1e-7) / np.log(1 - chance))) + 20
    kind = gen.pick(rng, ("polynomial", "recorder"))
    form = gen.pick(rng, (lambda x: x, lambda x: x.tolist(), lambda x: [tuple(i) for i in x.tolist()]))
    model = Polynomial(form(xy), deg=deg) if kind == "polynomial" else Recorder(xy, deg)
    m.case(kind=kind, size=size, n=n, deg=deg, good=len(good), noise=noise, iterations=iterations)
    m.count("runs")
    seed = int(rng.integers(1 << 31))
    args = dict(n=n, max_error=max_error, min_inliers=min_inliers, iterations=iterations)
    np.random.seed(seed)
    ok, r = m.returns(lambda: ransac(model, **args), "accepted")
    if not ok:
        return
    m.count("recovered")
    params, inliers = r
    m.check(errors(np.column_stack((xy[:, 0], np.polyval(coeffs, xy[:, 0]))), params).max() < max_error * 2, "model", params=params, coeffs=coeffs)
    e = errors(xy, params)
    if (np.abs(e - max_error) > 1e-9).all():
        m.equal(np.sort(inliers), np.flatnonzero(e < max_error), "inliers")
    m.check(len(np.setdiff1d(good, inliers)) <= 0.1 * len(good), "inliers-good", missing=np.setdiff1d(good, inliers))
    m.check(np.isin(inliers, good).all(), "inliers-outliers", extra=np.setdiff1d(inliers, good))
    if kind == "recorder":
        judge_samples(m, model, n, iterations)
    # The same random numbers give the same answer
    np.random.seed(seed)
    again = ransac(model, **args)
    m.equal(again[0], params, "repeatable-model")
    m.equal(again[1], inliers, "repeatable-inliers")
    # No set of points is larger than the number of points
    m.count("rejected")
    m.raises(ValueError, lambda: ransac(model, **dict(args, min_inliers=size - n, iterations=20)), "too-many-inliers")
    m.raises(ValueError, lambda: ransac(model, **dict(args, n=size + int(rng.integers(0, 3)))), "sample-too-large")


@workload(quick=60, thorough=600)
def boundary(rng, m):
    """As few inliers as are accepted, and one fewer."""
    deg = int(rng.integers(0, 2))
    n = deg + 1
    size = int(rng.integers(8, 14))
    xy, good, coeffs = data(rng, size, deg, 0.4, 0.0, out=(20, 2000))
    # Points off the structure agree on no other
    model = Recorder(xy, deg)
    most = len(good) - n - 1
    sets, close = consensus(model, n, 0.1, most)
    if close or any(k != frozenset(good.tolist()) for k in sets) or len(sets) != 1:
        m.trivial()
        return
    m.case(size=size, n=n, good=len(good))
    m.count("boundary")
    total = math.comb(size, n)
    ok, r = m.returns(lambda: ransac(model, n=n, max_error=0.1, min_inliers=most, iterations=total), "required-inliers")
    if ok:
        m.close(r[0], coeffs, "required-model", rtol=1e-6, atol=1e-6)
        m.equal(np.sort(r[1]), good, "required-found")
    m.raises(ValueError, lambda: ransac(model, n=n, max_error=0.1, min_inliers=most + 1, iterations=total), "one-more")
    few = ransac(model, n=n, max_error=0.1, min_inliers=most - 1, iterations=total)
    m.close(few[0], coeffs, "one-less", rtol=1e-6, atol=1e-6)


@workload(quick=12, thorough=120)
def cameras(rng, m):
    sz = gen.imgsz(rng, 200, 1500)
    sz = (sz[0], int(np.clip(sz[1], sz[0] / 2, sz[0] * 2)))
    a = gen.gentle_camera_args(rng, rho=0.05, sz=sz, pos=tuple(rng.uniform(-50, 50, 3)), corr=False, pattern="k1")
    cam = Camera(**a)
    ref = RefCam.of(cam)
    ngood, nbad = int(rng.integers(24, 34)), int(rng.integers(2, 9))
    n = 4
    size = ngood + nbad
    uv = rng.uniform(0.03, 0.97, (size, 2)) * sz
    xy = ref.undistort(ref.xyd_of_uv(uv))
    right, down, fwd = axes(ref.viewdir)
    xyz = (xy[:, :1] * right + xy[:, 1:] * down + fwd) * 10 ** rng.uniform(1, 3, (size, 1)) + ref.xyz
    noise = 0.2
    uv = uv + rng.uniform(-1, 1, uv.shape) * noise
    bad = np.sort(rng.permutation(size)[:nbad])
    uv[bad] += rng.choice([-1, 1], (nbad, 2)) * rng.uniform(30, 90, (nbad, 2))
    behind = rng.random() < 0.4
    if behind:
        xyz[bad[0]] = 2 * np.array(ref.xyz) - xyz[bad[0]]
    good = np.setdiff1d(np.arange(size), bad)
    truth = np.array(cam.viewdir)
    cam.viewdir = truth + rng.uniform(-0.5, 0.5, 3)
    start = np.array(cam.to_array())
    # All control in one object, or in several
    if rng.random() < 0.5:
        control = [Points(cam, uv, xyz)]
    else:
        k = int(rng.integers(3, size - 3))
        control = [Points(cam, uv[:k], xyz[:k]), Points(cam, uv[k:], xyz[k:])]
    model = Cameras(cam, control, cam_params={"viewdir": True})
    m.case(size=size, bad=nbad, controls=len(control), behind=behind)
    m.count("cameras")
    np.random.seed(int(rng.integers(1 << 31)))
    ok, r = m.returns(lambda: quiet(ransac, model, n=n, max_error=8, min_inliers=int(0.8 * ngood) - n, iterations=60), "accepted")
    m.equal(np.array(cam.to_array()), start, "camera-unchanged")
    if not ok:
        return
    params, inliers = r
    m.equal(np.sort(inliers), good, "camera-inliers")
    off = np.linalg.norm(np.subtract(axes(params), axes(truth)), axis=1).max() * max(ref.f)
    m.check(off < 2, "camera", off=off)
    model.set_cameras(params)
    d = np.hypot(*(RefCam.of(cam).project(xyz)[0] - uv).T)
    with np.errstate(invalid="ignore"):
        m.equal(np.flatnonzero(d <= 8), np.sort(inliers), "camera-explained")


@workload(quick=100, thorough=1000)
def polynomials(rng, m):
    """The polynomial model: least squares over the points selected."""
    deg = int(rng.integers(0, 4))
    size = int(rng.integers(deg + 2, 30))
    xy, _, _ = data(rng, size, deg, 0.3, 0.5)
    model = Polynomial(xy.tolist() if rng.random() < 0.5 else xy, deg=deg) if deg != 1 or rng.random() < 0.5 else Polynomial(xy)
    m.case(size=size, deg=deg)
    m.count("polynomials")
    m.equal(model.size, size, "polynomial-size")
    k = rng.permutation(size)[: int(rng.integers(deg + 1, size + 1))]
    index, ids = gen.pick(rng, ((slice(None), np.arange(size)), (k, k), (k.tolist(), k), (slice(0, size, 1), np.arange(size))))
    p = np.asarray(model.fit(index), float)
    m.must(p.shape == (deg + 1,), "polynomial-fit", p=p)
    # Stationary: residuals are orthogonal to every power
    x, y = xy[ids].T
    V = np.vander(x, deg + 1)
    m.close(V.T @ (V @ p - y), np.zeros(deg + 1), "polynomial-least-squares", atol=1e-7 * np.abs(V).max() * (1 + np.abs(y).max()) * len(x))
    m.close(model.predict(p, index), V @ p, "polynomial-predict", rtol=1e-9, atol=1e-9)
    m.close(model.errors(p, index), np.abs(V @ p - y), "polynomial-errors", rtol=1e-7, atol=1e-8)
    plt.close("all")
    plt.figure()
    show = dict(params=p) if rng.random() < 0.5 else {}
    ok, out = m.returns(lambda: model.plot(index=index, **show), "polynomial-plot")
    if ok:
        rest = np.setdiff1d(np.arange(size), ids)
        for label, i in (("selected", ids), ("unselected", rest)):
            if len(i):
                m.must(out[label] is not None, "polynomial-plot-" + label)
                got = np.asarray(out[label].get_offsets())
                m.close(got[np.lexsort(got.T)], xy[i][np.lexsort(xy[i].T)], "polynomial-plot-" + label)
            else:
                m.check(out.get(label) is None, "polynomial-plot-none")
        line = out["predicted"][0].get_xydata()
        m.close(line[:, 1], np.polyval(p, line[:, 0]), "polynomial-plot-line", rtol=1e-9, atol=1e-9)
    plt.close("all")
