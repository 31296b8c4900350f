import datetime
import warnings
import numpy as np
import scipy.interpolate
import scipy.ndimage
from gmon import META, workload, gen
from gmon.scene import T0
from gmon.tracking import HOUR, METHODS
from glimpse import Camera, Image, Observer, Tracker

META["rule"] = (
    "A case is a tracker with random images (one or several bands, several observers) and settings, asked for the likelihoods "
    "of particles; or a track with a motion model of our own, which records what the tracker asks of it. The oracles are a direct "
    "evaluation of the mismatch by its definition, invariances of the definition, and the documented sequence of the filter."
)
META["require"] = {
    "likelihoods": 400, "templates": 400, "combined weights": 200, "invariances": 150, "loops": 150, "steps": 500, "copies": 20000,
    "steps without images": 40, "choice draws": 20, "particles outside": 40, "models without likelihoods": 20, "several bands": 80,
    "rough fits": 60, "partly visible": 40, "recorded tracks": 200, "weighted steps": 500,
}
META["assumptions"] = ["ties of pixels' brightness are matched as the cumulative distribution of each tile says", "images in memory"]


def observer(rng, n=3, size=None, bands=None, sigma=None, kind=None):
    """Vertical views of a plane, with smooth random pixels."""
    size = size or (int(rng.integers(70, 95)), int(rng.integers(65, 90)))
    bands = bands or int(gen.pick(rng, (1, 1, 3)))
    imgs = []
    sm = float(rng.uniform(0.5, 2.0))
    for i in range(n):
        cam = Camera(imgsz=size, f=float(rng.uniform(50, 70)), xyz=(*rng.uniform(-3, 3, 2), 60), viewdir=(rng.uniform(0, 360), -90, 0))
        img = Image(f"{i}", cam=cam, datetime=T0 + i * HOUR)
        a = scipy.ndimage.gaussian_filter(rng.normal(size=(size[1], size[0], bands)), (sm, sm, 0))
        a = (a - a.min()) / np.ptp(a) * 254
        if kind == "blank":
            a[:] = 100
        a = a.round().astype(np.uint8)
        img.array = a if bands > 1 else a[..., 0]
        imgs.append(img)
    return Observer(imgs, sigma=sigma or float(rng.uniform(0.1, 1.5)), cache=bool(rng.random() < 0.5))


def quiet(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        return fn(), [str(x.message) for x in w]


def settings(rng):
    highpass = {"size": (int(rng.integers(2, 9)), int(rng.integers(2, 9)))}
    if rng.random() < 0.3:
        highpass["mode"] = gen.pick(rng, ("nearest", "reflect", "wrap", "mirror"))
    k = dict(highpass=highpass, interpolation={"kx": int(rng.integers(1, 5)), "ky": int(rng.integers(1, 5))})
    if rng.random() < 0.2:
        k.pop("highpass")
    if rng.random() < 0.2:
        k.pop("interpolation")
    return k


def standard(pixels):
    a = np.asarray(pixels, dtype=float)
    if a.ndim == 3:
        a = a.sum(axis=2) / a.shape[2]
    return (a - a.sum() / a.size) / np.sqrt(((a - a.sum() / a.size) ** 2).sum() / a.size)


def distribution(a):
    s = np.sort(a.ravel())
    v = s[np.append(s[1:] != s[:-1], True)]
    return v, np.searchsorted(s, v, side="right") / s.size


def rough(a, highpass):
    return a - scipy.ndimage.median_filter(a, **highpass)


class Reference:
    """Mismatch by its definition."""

    def __init__(self, tk, j, img, size, mean):
        self.tk, self.obs = tk, tk.observers[j]
        self.high = getattr(tk, "highpass")
        uv = self.obs.xyz_to_uv(np.atleast_2d(mean), img=img)[0]
        self.box = np.asarray(self.obs.tile_box(uv, size=size, img=img))
        l, t, r, b = self.box
        a = standard(self.obs.images[img].array[t:b, l:r])
        self.cdf = distribution(a)
        self.tile = rough(a, self.high)
        self.shift = uv - np.array([(l + r) / 2, (t + b) / 2])
        self.shape = np.array([r - l, b - t])

    def __call__(self, xyz, img):
        uv = self.obs.xyz_to_uv(xyz, img=img)
        # Extent of all templates centered on the particles, wide enough for the interpolation
        k = [self.tk.interpolation.get(n, 3) for n in ("ky", "kx")]
        box = np.zeros((2, 2))
        for d in range(2):
            q = uv[:, d] - self.shift[d]
            lo, hi = q.min() - self.shape[d] * 0.5, q.max() + self.shape[d] * 0.5
            short = k[d] - (hi - lo - self.shape[d])
            if short > 0:
                lo, hi = lo - short / 2, hi + short / 2
            box[:, d] = np.floor(lo), np.ceil(hi)
        box = box.astype(int)
        pixels = self.obs.images[img].array
        if (box < 0).any() or (box[1] > np.array([pixels.shape[1], pixels.shape[0]])).any():
            return None, box
        a = standard(pixels[box[0, 1] : box[1, 1], box[0, 0] : box[1, 0]])
        v, p = distribution(a)
        a = rough(np.interp(p[np.searchsorted(v, a)], self.cdf[1], self.cdf[0]), self.high)
        w = np.lib.stride_tricks.sliding_window_view(a, self.tile.shape)
        sse = ((w - self.tile) ** 2).mean(axis=(2, 3))
        # Each is the mismatch of the template centered at
        u = box[0, 0] + self.shape[0] / 2 + np.arange(sse.shape[1]) + self.shift[0]
        v = box[0, 1] + self.shape[1] / 2 + np.arange(sse.shape[0]) + self.shift[1]
        f = scipy.interpolate.RectBivariateSpline(v, u, sse, kx=self.tk.interpolation.get("kx", 3), ky=self.tk.interpolation.get("ky", 3))
        return f.ev(uv[:, 1], uv[:, 0]) / (2 * self.obs.sigma**2), box


def start(rng, tk, m, n=60, spread=None, offset=2.0):
    """Particles around a point that all images see."""
    p = np.zeros((n, 6))
    spread = float(gen.pick(rng, (0.0, 0.5, 3.0, 6.0))) if spread is None else spread
    p[:, :2] = rng.uniform(-offset, offset, 2) + rng.uniform(-spread, spread, (n, 2))
    tk.particles, tk.weights = p, np.ones(n)
    return p


@workload(quick=1500, thorough=20000)
def likelihoods(rng, m):
    """Mismatch of every particle, by its definition."""
    nobs = int(rng.integers(1, 4))
    tk = Tracker([observer(rng) for _ in range(nobs)], **settings(rng))
    tile = (int(rng.integers(5, 18)), int(rng.integers(5, 18)))
    if rng.random() < 0.5:
        tile = int(tile[0]) | 1, int(tile[1]) | 1
    p = start(rng, tk, m)
    mean = tk.particle_mean[:3]
    refs = []
    for j in range(nobs):
        tk.initialize_template(obs=j, img=0, tile_size=tile)
        r = Reference(tk, j, 0, tile, mean)
        refs.append(r)
        m.count("templates")
        t = tk.templates[j]
        m.close(t["tile"], r.tile, "template", rtol=0, atol=1e-9)
        m.equal(tuple(t["tile"].shape), (tile[1], tile[0]), "template-size", tile=tile)
        m.equal((t["obs"], t["img"]), (j, 0), "template-origin")
        if tk.observers[j].images[0].array.ndim == 3:
            m.count("several bands")
    if tk.interpolation.get("kx", 3) == 1:
        m.count("rough fits")
    q = p.copy()
    q[:, :2] += rng.uniform(-3, 3, 2)
    if rng.random() < 0.3:
        q[:, :2] += rng.uniform(-1, 1, 2) * 60 * gen.pick(rng, (0.3, 0.6, 2))
    tk.particles = q
    m.case(nobs=nobs, tile=tile, highpass=tk.highpass, interpolation=tk.interpolation, spread=float(np.ptp(q[:, 0])))
    imgs, all_want = [], []
    for j in range(nobs):
        img = int(rng.integers(3))
        if rng.random() < 0.2:
            imgs.append(None)
            m.check(tk.compute_observer_log_likelihoods(j, None) is None, "no-image")
            continue
        imgs.append(img)
        want, box = refs[j](q[:, :3], img)
        got, said = quiet(lambda: m.call(tk.compute_observer_log_likelihoods, j, img))
        m.count("likelihoods")
        if want is None:
            m.count("particles outside")
            size = np.array(tk.observers[j].images[img].array.shape[1::-1])
            if ((box[0] >= 0) & (box[1] <= size)).any() and not ((box[1] < 0) | (box[0] > size)).any():
                m.count("partly visible")
            m.check(got is None, "outside-not-believed", got=got, box=box)
            m.check(any("bounds" in s for s in said), "outside-warned", said=said)
            continue
        m.must(got is not None, "inside-compared", said=said, box=box)
        scale = 1 / (2 * tk.observers[j].sigma ** 2)
        m.close(got / scale, want / scale, "mismatch", rtol=1e-4, atol=2e-4)
        all_want.append(want)
    # Likelihoods of independent observers multiply
    before = np.full(len(q), 0.25)
    tk.weights = before.copy()
    extra = rng.uniform(0, 3, len(q)) if rng.random() < 0.4 else None
    model = None
    if extra is not None:
        model = type("Model", (), {"compute_log_likelihoods": lambda self, particles: extra})()
    elif rng.random() < 0.5:
        model = type("Model", (), {"compute_log_likelihoods": lambda self, particles: None})()
    quiet(lambda: tk.update_weights(imgs=imgs, motion_model=model))
    m.count("combined weights")
    total = sum(all_want) if all_want else None
    if extra is not None:
        total = extra if total is None else total + extra
    if total is None:
        m.equal(tk.weights, before, "nothing-new")
    else:
        with np.errstate(divide="ignore"):
            low = total < 600
            m.close(np.log(tk.weights[low]), -total[low], "combined", rtol=2e-4, atol=2e-2 * max(1, 0.05 / min(o.sigma for o in tk.observers) ** 2), imgs=imgs, extra=extra is not None)
        m.check(bool((tk.weights > 0).all()), "positive")


@workload(quick=900, thorough=12000)
def invariances(rng, m):
    """What the likelihoods do not depend on."""
    kind = gen.pick(rng, ("bands", "brightness", "others", "weights"))
    bands = 3 if kind == "bands" else None
    size = (int(rng.integers(70, 95)), int(rng.integers(65, 90)))
    base = observer(rng, n=2, size=size, bands=bands, sigma=0.5)
    arrays = [i.array for i in base.images]
    other = []
    order = rng.permutation(3)
    top = int(arrays[1].max())
    # Strictly increasing change of brightness
    gain = float(rng.uniform(20, 200))
    power = float(rng.uniform(0.5, 2))
    for k, img in enumerate(base.images):
        a = arrays[k]
        if kind == "bands":
            a = np.ascontiguousarray(a[..., order])
        elif kind == "brightness" and k == 1:
            if a.ndim == 3:
                a = arrays[1] = np.repeat(a[..., :1], 3, axis=2)
                base.images[1].array = a
            a = (gain * (1.0 + a.astype(float)) ** power / (1.0 + top) ** power * 100).astype(float)
        new = Image("x", cam=img.cam.copy(), datetime=img.datetime)
        new.array = a
        other.append(new)
    changed = Observer(other, sigma=base.sigma, cache=True)
    base.cache = True
    extra = [observer(rng, n=2)] if kind == "others" else []
    s = settings(rng)
    A = Tracker([base], **s)
    B = Tracker(extra + [changed], **s)
    tile = (int(rng.integers(7, 16)), int(rng.integers(7, 16)))
    p = start(rng, A, m)
    B.particles, B.weights = p.copy(), np.ones(len(p))
    if kind == "weights":
        # Only the mean position counts for the template
        B.particles = np.vstack((p, p + np.array([5, 5, 0, 0, 0, 0])))
        B.weights = np.append(np.ones(len(p)), np.zeros(len(p)))
    j = len(extra)
    A.initialize_template(obs=0, img=0, tile_size=tile)
    B.initialize_template(obs=j, img=0, tile_size=tile)
    q = p.copy()
    q[:, :2] += rng.uniform(-3, 3, 2)
    A.particles, B.particles = q, q.copy()
    m.case(kind=kind, tile=tile, **{k: str(v) for k, v in s.items()})
    a, _ = quiet(lambda: A.compute_observer_log_likelihoods(0, 1))
    b, _ = quiet(lambda: B.compute_observer_log_likelihoods(j, 1))
    m.must((a is None) == (b is None), "invariant-" + kind, a=a, b=b)
    m.count("invariances")
    if a is not None:
        m.close(b, a, "invariant-" + kind, rtol=1e-4, atol=1e-3)


class Recorder:
    """A motion model that records what it is asked, with chosen preferences."""

    def __init__(self, rng, n, unit, likely=True):
        self.rng, self.n, self.time_unit, self.events = rng, n, unit, []
        self.uninformed = not likely

    def initialize_particles(self):
        p = np.zeros((self.n, 6))
        p[:, :2] = self.rng.uniform(-1, 1, (self.n, 2))
        # A name for each particle, which nothing changes
        p[:, 5] = np.arange(self.n)
        self.events.append(("initialize", None, p.copy()))
        return p

    def evolve_particles(self, particles, dt):
        self.events.append(("evolve", dt, particles.copy()))
        particles[:, 0] += 0.01
        particles[:, 5] = np.arange(self.n)

    def compute_log_likelihoods(self, particles):
        if self.uninformed:
            self.events.append(("likelihood", None, particles.copy()))
            return None
        w = np.where(self.rng.random(self.n) < 0.1, 1.0, 0.012)
        self.events.append(("likelihood", w, particles.copy()))
        return -np.log(w)


class Plain:
    """Without preferences, and without saying so."""

    def __init__(self, r):
        self.r, self.n, self.time_unit, self.events = r, r.n, r.time_unit, r.events

    def initialize_particles(self):
        return self.r.initialize_particles()

    def evolve_particles(self, particles, dt):
        return self.r.evolve_particles(particles, dt)


@workload(quick=900, thorough=12000)
def loops(rng, m):
    """What the tracker asks of a motion model, and what it does with the answers."""
    n = int(rng.integers(300, 500))
    nobs = int(rng.integers(1, 3))
    ntimes = int(rng.integers(3, 8))
    times = [T0 + i * HOUR for i in range(ntimes)]
    observers, seen = [], []
    for j in range(nobs):
        o = observer(rng, n=ntimes, kind="blank", size=(70, 64))
        keep = rng.random(ntimes) < 0.7
        keep[rng.choice(ntimes, 2, replace=False)] = True
        observers.append(Observer([i for i, k in zip(o.images, keep) if k], cache=False))
        seen.append(keep)
    # An observer none of the tracks use keeps the times that others do not see
    o = observer(rng, n=ntimes, kind="blank", size=(70, 64))
    observers.append(o)
    method = gen.pick(rng, METHODS + ("choice",))
    tk = Tracker(observers, **({} if method == "systematic" and rng.random() < 0.5 else {"resample_method": method}))
    nt = int(rng.integers(1, 4))
    mask = np.zeros((nt, nobs + 1), dtype=bool)
    for r in mask:
        r[:nobs] = rng.random(nobs) < 0.7
        r[rng.integers(nobs)] = True
    models = []
    for _ in range(nt):
        r = Recorder(rng, n, HOUR, likely=bool(rng.random() < 0.8))
        if r.uninformed and rng.random() < 0.5:
            r = Plain(r)
            m.count("models without likelihoods")
        models.append(r)
    backward = bool(rng.random() < 0.4)
    asked = times[::-1] if backward else times
    m.case(n=n, method=method, mask=mask, seen=[k.tolist() for k in seen], backward=backward)
    ok, out = m.returns(lambda: quiet(lambda: tk.track(models, datetimes=asked, observer_mask=mask, tile_size=(5, 5), return_particles=True, return_covariances=bool(rng.random() < 0.3))), "tracked")
    if not ok:
        return
    tracks, _ = out
    m.must(tracks.errors is None or all(e is None for e in tracks.errors), "completed", error=str(tracks.errors)[-700:])
    for k, model in enumerate(models):
        has = np.any([s for s, r in zip(seen, mask[k]) if r], axis=0)
        has = has[::-1] if backward else has
        first, last = np.flatnonzero(has)[[0, -1]]
        m.count("loops")
        names = [e[0] for e in model.events]
        step = ["evolve"] if isinstance(model, Plain) else ["evolve", "likelihood"]
        m.must(names == ["initialize"] + step * (last - first), "sequence", names=names, first=first, last=last)
        now = None
        e = iter(model.events)
        _, _, now = next(e)
        for i in range(first, last + 1):
            if i > first:
                _, dt, before = next(e)
                m.equal(dt, asked[i] - asked[i - 1], "time-step", i=i)
                m.count("steps")
                if not has[i]:
                    m.count("steps without images")
                m.equal(before, now, "particles-kept", i=i)
                w = None
                if not isinstance(model, Plain):
                    _, w, after = next(e)
                    want = before.copy()
                    want[:, 0] += 0.01
                    want[:, 5] = np.arange(n)
                    m.equal(after, want, "particles-moved")
                now = tracks.particles[k][i]
                names_ = now[:, 5].astype(int)
                moved = before.copy()
                moved[:, 0] += 0.01
                moved[:, 5] = np.arange(n)
                m.equal(now, moved[names_], "copies-of-particles")
                counts = np.bincount(names_, minlength=n)
                m.count("copies", n)
                if w is None:
                    w = np.ones(n)
                expect = n * w / w.sum()
                if method == "systematic":
                    m.check(bool((np.abs(counts - expect) < 1 + 1e-6).all()), "resampled", worst=np.abs(counts - expect).max(), i=i)
                elif method == "residual":
                    m.check(bool((counts >= np.floor(expect - 1e-6)).all()), "resampled", i=i)
                elif method == "stratified":
                    m.check(bool((np.abs(counts - expect) < 2 + 1e-6).all()), "resampled", worst=np.abs(counts - expect).max(), i=i)
                big = w > 0.5
                if model.events and w.min() < 0.5 and big.sum() > 15:
                    m.check(bool(counts[big].sum() > 0.6 * n * w[big].sum() / w.sum()), "preferred", i=i)
                    spread = ((counts - expect)[big] ** 2 / expect[big]).mean()
                    if method == "choice":
                        m.count("choice draws")
                        m.check(bool(0.25 < spread < 3), "independent-draws", spread=spread)
                    elif method != "residual":
                        m.check(bool(spread < 0.25), "even-draws", spread=spread)
            got = tracks.particles[k][i]
            weights = tracks.weights[k][i]
            m.count("recorded tracks")
            if i == first:
                m.equal(got, now, "particles-first")
                m.check(bool(np.all(weights == weights[0]) and weights[0] > 0), "even-weights")
            m.close(tracks.means[k][i], (got * weights[:, None]).sum(axis=0) / weights.sum(), "mean", rtol=1e-9, atol=1e-9)
            var = (weights[:, None] * (got - tracks.means[k][i]) ** 2).sum(axis=0) / weights.sum()
            sd = np.sqrt(np.diag(tracks.covariances[k][i])) if getattr(tracks, "covariances", None) is not None else tracks.sigmas[k][i]
            m.close(sd, np.sqrt(var), "spread", rtol=1e-6, atol=1e-6)
        outside = np.ones(ntimes, dtype=bool)
        outside[first : last + 1] = False
        m.check(bool(np.isnan(tracks.particles[k][outside]).all()), "nothing-outside")


@workload(quick=250, thorough=4000)
def weighted(rng, m):
    """Weights during a track: of all observers of the track, by templates of their first images."""
    n = int(rng.integers(40, 80))
    ntimes = int(rng.integers(2, 6))
    times = [T0 + i * HOUR for i in range(ntimes)]
    nobs = int(rng.integers(1, 4))
    observers, seen = [], []
    for j in range(nobs):
        o = observer(rng, n=ntimes, sigma=float(rng.uniform(0.6, 2.0)))
        keep = rng.random(ntimes) < 0.75
        keep[rng.choice(ntimes, 2, replace=False)] = True
        observers.append(Observer([i for i, k in zip(o.images, keep) if k], cache=o.cache, sigma=o.sigma))
        seen.append(keep)
    tk = Tracker(observers, resample_method=gen.pick(rng, METHODS), **settings(rng))
    backward = bool(rng.random() < 0.4)
    asked = times[::-1] if backward else times
    seen = [k[::-1] if backward else k for k in seen]
    at = [i for i in range(ntimes) if any(k[i] for k in seen)]
    asked, seen = [asked[i] for i in at], [k[at] for k in seen]
    nt = int(rng.integers(1, 4))
    mask = rng.random((nt, nobs)) < 0.7
    for r in mask:
        r[rng.integers(nobs)] = True
    models = [Recorder(rng, n, HOUR, likely=bool(rng.random() < 0.5)) for _ in range(nt)]
    tile = (int(rng.integers(5, 14)), int(rng.integers(5, 14)))
    keyword = {"tile_size": tile}
    if rng.random() < 0.2:
        tile, keyword = (15, 15), {}
    m.case(n=n, tile=tile, mask=mask, seen=[k.tolist() for k in seen], backward=backward)
    ok, out = m.returns(
        lambda: quiet(lambda: tk.track(models, datetimes=asked if backward or rng.random() < 0.5 else None, observer_mask=mask, return_particles=True, **keyword)), "tracked"
    )
    if not ok:
        return
    tracks, _ = out
    m.must(tracks.errors is None or all(e is None for e in tracks.errors), "completed", error=str(tracks.errors)[-700:])
    m.must(list(tracks.datetimes) == asked, "datetimes", got=tracks.datetimes)
    for k, model in enumerate(models):
        has = np.any([s for s, r in zip(seen, mask[k]) if r], axis=0)
        first, last = np.flatnonzero(has)[[0, -1]]
        before = [e[2] for e in model.events if e[0] == "evolve"]
        answers = [e for e in model.events if e[0] == "likelihood"]
        m.must(len(answers) == last - first, "sequence")
        refs = {}
        for i in range(first, last + 1):
            if i == first:
                particles, weights = model.events[0][2], np.ones(n)
            else:
                particles = answers[i - first - 1][2]
                weights = tracks.weights[k][i - 1]
            mean = (particles * weights[:, None]).sum(axis=0) / weights.sum()
            index = []
            for j in range(nobs):
                t = asked[i]
                index.append([x.datetime for x in observers[j].images].index(t) if seen[j][i] else None)
                if mask[k][j] and np.flatnonzero(seen[j])[0] == i:
                    refs[j] = Reference(tk, j, index[j], tile, mean[:3])
            if i == first:
                continue
            total, count = np.zeros(n), 0
            for j in range(nobs):
                if mask[k][j] and index[j] is not None:
                    part, _ = refs[j](particles[:, :3], index[j])
                    if part is not None:
                        total, count = total + part, count + 1
            w = answers[i - first - 1][1]
            if w is not None:
                total, count = total - np.log(w), count + 1
            got = tracks.particles[k][i]
            name = got[:, 5].astype(int)
            m.count("weighted steps")
            if not count:
                continue
            e = np.log(tracks.weights[k][i]) + total[name]
            m.check(bool(np.ptp(e) < 0.02), "weights", deviation=np.ptp(e), i=i, n=count)
            p = np.exp(-(total - total.min()))
            expect = n * p / p.sum()
            m.check(bool((expect[name] > 1e-6).all()), "likely-kept", least=expect[name].min())
            counts = np.bincount(name, minlength=n)
            m.check(bool(counts[expect > 12].all()), "likely-kept", expect=expect.max())
