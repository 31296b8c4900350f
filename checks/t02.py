import contextlib
import datetime
import math
import numpy as np
from gmon import META, workload, gen
from glimpse import Camera, Image, Observer, Raster, Tracker
from glimpse.track.motion import Motion

META["rule"] = (
    "A case is a set of labelled particles with positive weights (uniform, log-uniform over up to 550 orders of magnitude, "
    "degenerate, multiples of 1/n) resampled repeatedly by one method, with ordinary or extreme random draws. The oracle counts the "
    "copies of each label against n times its normalized weight. Non-trivial if the weights differ."
)
META["require"] = {
    "resampled": 20000, "drawn particles": 1000000, "extreme draws": 1000, "systematic": 3000, "stratified": 3000, "residual": 3000,
    "choice": 3000, "moments": 400, "weight updates": 200, "rejected particles": 100, "degenerate weights": 50,
}
META["assumptions"] = ["weights are positive and their sum is finite", "counts are judged per draw by the method's bound and over all draws at 6 standard errors"]
METHODS = ("systematic", "stratified", "residual", "choice")
T0 = datetime.datetime(2020, 1, 1)


def tracker(**k):
    cam = Camera(imgsz=(100, 80), f=100)
    imgs = [Image("none", cam=cam, datetime=T0 + datetime.timedelta(hours=i)) for i in range(2)]
    return Tracker([Observer(imgs)], **k)


def weights(rng, m, n):
    kind = gen.pick(rng, ("uniform", "random", "log", "extreme", "single", "multiples", "ties", "decay", "likelihood"))
    if kind == "uniform":
        w = np.full(n, float(gen.pick(rng, (1, 1 / n, 0.1, 1e-300, 7))))
        m.trivial()
    elif kind == "random":
        w = rng.random(n) + 1e-12
    elif kind == "log":
        w = 10.0 ** rng.uniform(-6, 3, n)
    elif kind == "extreme":
        w = 10.0 ** rng.uniform(-300, 250, n)
    elif kind == "single":
        w = np.full(n, 1e-300)
        w[rng.integers(n)] = 1
    elif kind == "multiples":
        w = np.bincount(rng.integers(0, n, n), minlength=n) / n + 1e-300
    elif kind == "ties":
        w = rng.integers(1, 4, n).astype(float)
    elif kind == "decay":
        w = 0.5 ** np.minimum(np.arange(n), 1000).astype(float)
        w = w[::-1].copy() if rng.random() < 0.5 else w
    else:
        w = np.exp(-(rng.normal(0, gen.pick(rng, (0.3, 3, 30)), n) ** 2)) + 1e-300
    if kind in ("single", "extreme", "decay"):
        m.count("degenerate weights")
    return kind, w * (10.0 ** rng.uniform(-3, 3) if rng.random() < 0.3 else 1)


def expected(w):
    """Expected counts."""
    total = math.fsum(w)
    return np.array([float(v) / total for v in w]) * len(w)


@contextlib.contextmanager
def draws(rng, m, extreme):
    """Random numbers at the ends of their range."""
    if not extreme:
        yield
        return
    values = [0.0, np.nextafter(1.0, 0.0), np.nextafter(1.0, 0.0), 1 - 2.0**-52, 2.0**-53, 0.5]
    saved = np.random.random, np.random.random_sample, np.random.rand

    def fake(size=None):
        m.count("extreme draws")
        v = float(gen.pick(rng, values))
        return v if size is None else np.full(size, v)

    np.random.random = np.random.random_sample = fake
    np.random.rand = lambda *a: fake(a if a else None)
    try:
        yield
    finally:
        np.random.random, np.random.random_sample, np.random.rand = saved


@workload(quick=1200)
def resampling(rng, m):
    method = METHODS[m.index % 4]
    n = int(gen.pick(rng, (1, 2, 3, 5, 10, 49, 50, 64, 100, 300, 1000)))
    kind, w = weights(rng, m, n)
    m.case(method=method, n=n, kind=kind, weights=w)
    extreme = rng.random() < 0.3
    default = rng.random() < 0.4
    tk = tracker(**({"resample_method": method} if default else {}))
    p = np.column_stack((np.arange(n), rng.normal(size=(n, 5))))
    mean = expected(w)
    near = np.round(mean)
    low = np.where(np.abs(mean - near) < 1e-9 * np.maximum(1, near) * n, np.maximum(near - 1, 0), np.floor(mean))
    high = np.where(np.abs(mean - near) < 1e-9 * np.maximum(1, near) * n, near + 1, np.ceil(mean))
    reps = 40 if extreme else 150
    total = np.zeros(n)
    order = np.zeros(n)
    for _ in range(reps):
        tk.particles, tk.weights = p.copy(), w.copy()
        with draws(rng, m, extreme):
            ok, _v = m.returns(lambda: tk.resample_particles(**({} if default else {"method": method})), "never-fails")
        if not ok:
            return
        m.count("resampled")
        m.count(method)
        q, v = tk.particles, tk.weights
        m.must(q.shape == (n, 6) and np.shape(v) == (n,), "shape", got=(q.shape, np.shape(v)))
        m.count("drawn particles", n)
        label = q[:, 0].astype(int)
        m.must(bool(((label >= 0) & (label < n)).all()) and bool((q == p[label]).all()), "copies")
        m.must(bool((v == w[label]).all()), "own-weights")
        counts = np.bincount(label, minlength=n)
        if method == "systematic":
            m.must(bool(((counts >= low) & (counts <= high)).all()), "systematic-within-one", expected=mean, counts=counts)
        elif method == "residual":
            m.must(bool((counts >= low).all()), "residual-whole-part", expected=mean, counts=counts)
        elif method == "stratified":
            m.must(bool((np.abs(counts - mean) < 2 + 1e-6).all()), "stratified-within-two", expected=mean, counts=counts)
        total += counts
        order += q[:, 1]
    if extreme or n == 1:
        return
    # Variance of a single count
    f = mean - low
    var = {"systematic": np.minimum(0.25, mean), "stratified": np.minimum(0.5, mean), "residual": np.minimum(f * 1.0000001, mean), "choice": mean}[method]
    # Fractional parts of whole expected counts are rounding errors
    tol = 6 * np.sqrt(reps * var) + 12 + 1e-6 * reps
    bad = np.abs(total - reps * mean) > tol
    m.check(not bad.any(), "proportional", method=method, expected=(reps * mean)[bad], got=total[bad])
    # Together: groups of particles
    for _ in range(4):
        g = rng.random(n) < rng.random()
        e = mean[g].sum()
        sd = math.sqrt(reps * max(1e-12, min(e, n - e, {"systematic": np.inf, "stratified": np.inf, "residual": f.sum(), "choice": np.inf}[method])))
        if method in ("choice", "stratified", "residual"):
            m.check(abs(total[g].sum() - reps * e) < 6 * sd + 12, "proportional-groups", method=method, expected=reps * e, got=total[g].sum())


@workload(quick=1200)
def moments(rng, m):
    n = int(gen.pick(rng, (1, 2, 5, 50, 500)))
    kind, w = weights(rng, m, n)
    c = np.array([0, 0, 0, 0, 0, 0.0]) if rng.random() < 0.5 else np.array([5e5, 6e6, 1500, 3, -2, 0.1])
    s = 10.0 ** rng.uniform(-2, 2, 6)
    p = rng.normal(size=(n, 6)) * s
    if rng.random() < 0.4:
        p = p @ rng.normal(size=(6, 6))
    p = p + c
    m.case(n=n, kind=kind, weights=w, particles=p)
    tk = tracker()
    tk.particles, tk.weights = p.copy(), w.copy()
    u = np.longdouble(w) / np.longdouble(math.fsum(w))
    x = np.longdouble(p)
    mean = (u[:, None] * x).sum(axis=0)
    d = x - mean
    cov = np.array([[float((u * d[:, i] * d[:, j]).sum()) for j in range(6)] for i in range(6)])
    sd = np.sqrt(np.diag(cov))
    spread = np.abs(d).max(axis=0).astype(float)
    tol = 1e-9 * (np.abs(p).max(axis=0) + spread)
    for name, got, want, t in (
        ("mean", tk.particle_mean, mean, tol),
        ("sigma", tk.compute_particle_sigma(), sd, tol),
        ("sigma-with-mean", tk.compute_particle_sigma(mean=tk.particle_mean), sd, tol),
    ):
        m.must(np.shape(got) == (6,), name + "-shape", got=np.shape(got))
        m.check(bool((np.abs(got - want.astype(float)) <= t).all()), name, got=got, want=want.astype(float), tol=t)
    got = tk.particle_covariance
    m.must(np.shape(got) == (6, 6), "covariance-shape")
    t = 1e-8 * np.outer(spread + 1e-9 * np.abs(p).max(axis=0), spread + 1e-9 * np.abs(p).max(axis=0)) + np.outer(tol, tol)
    m.check(bool((np.abs(got - cov) <= t).all()), "covariance", got=got, want=cov)
    m.close(np.sqrt(np.maximum(0, np.diag(got))), tk.compute_particle_sigma(), "diagonal", rtol=1e-6, atol=2e-7 * (1 + spread.max()) + tol.max())
    m.equal(tk.particles, p, "particles-unchanged")
    m.equal(tk.weights, w, "weights-unchanged")
    m.count("moments")
    tk.initialize_weights()
    m.must(np.shape(tk.weights) == (n,) and bool((tk.weights > 0).all()) and len(set(tk.weights.tolist())) == 1, "equal-weights", got=tk.weights)
    m.close(tk.particle_mean, p.mean(axis=0), "unweighted-mean", rtol=1e-9, atol=tol.max())


class Stub(Motion):
    """A motion model which only scores particles."""

    def __init__(self, scores):
        self.scores = scores

    def compute_log_likelihoods(self, particles):
        return None if self.scores is None else self.scores(particles)


@workload(quick=600)
def updates(rng, m):
    """Weights are the likelihoods of the particles, and never vanish."""
    n = int(gen.pick(rng, (1, 5, 100)))
    tk = tracker()
    p = rng.normal(size=(n, 6))
    tk.particles = p.copy()
    w = rng.random(n) + 0.1
    tk.weights = w.copy()
    scale = float(gen.pick(rng, (0, 1, 30, 1e4)))
    a = np.abs(p[:, 0]) * scale
    none = rng.random() < 0.2
    m.case(n=n, scale=scale, none=none, particles=p)
    tk.update_weights(imgs=[None], motion_model=Stub(None if none else lambda q: np.abs(q[:, 0]) * scale))
    m.count("weight updates")
    got = tk.weights
    if none:
        m.equal(got, w, "no-information")
        return
    m.must(np.shape(got) == (n,), "shape")
    m.must(bool(np.isfinite(got).all() and (got > 0).all()), "positive", got=got)
    want = np.exp(-a)
    m.close(got, want, "likelihood", rtol=1e-9, atol=1e-290)
    m.equal(tk.particles, p, "particles-unchanged")
    tk.resample_particles(method=gen.pick(rng, METHODS))


@workload(quick=600)
def validity(rng, m):
    """Particles which are missing or hidden are rejected."""
    n = int(rng.integers(1, 40))
    size = (int(rng.integers(2, 8)), int(rng.integers(2, 8)))
    vis = rng.random(size) < 0.6
    x, y = (10.0, 10 + 2.0 * size[1]), (50.0, 50 - 3.0 * size[0])
    use = rng.random() < 0.7
    dtype = gen.pick(rng, (bool, float, np.uint8))
    tk = tracker(**({"viewshed": Raster(vis.astype(dtype), x=x, y=y)} if use else {}))
    p = rng.normal(size=(n, 6))
    col, row = rng.integers(0, size[1], n), rng.integers(0, size[0], n)
    if rng.random() < 0.5 and vis.any():
        cells = np.argwhere(vis)
        row, col = cells[rng.integers(0, len(cells), n)].T
    p[:, 0] = x[0] + 2 * (col + rng.uniform(0.05, 0.95, n))
    p[:, 1] = y[0] - 3 * (row + rng.uniform(0.05, 0.95, n))
    hidden = use and not vis[row, col].all()
    nan = rng.random() < 0.3
    if nan:
        p[rng.integers(n), rng.integers(2, 6)] = np.nan
    m.case(n=n, use=use, hidden=hidden, nan=nan, vis=vis)
    tk.particles = p.copy()
    if hidden or nan:
        m.raises(ValueError, tk.test_particles, "rejected", hidden=hidden, nan=nan)
        m.count("rejected particles")
    else:
        m.returns(tk.test_particles, "accepted")
        m.count("accepted particles")
