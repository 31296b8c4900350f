import datetime
import os
import PIL.Image
import warnings
import numpy as np
from gmon import META, workload, gen
from gmon.core import scratch
from gmon.scene import T0
from gmon.tracking import HOUR, METHODS, Setup
from glimpse import Camera, Image, Observer, Raster, Tracker
from glimpse.track import CartesianMotion

META["rule"] = (
    "A case is an image sequence rendered from a textured plane that moves at a known velocity, seen by one or more cameras "
    "(each image with its own pointing) or as maps, tracked from the true starting point with a random motion model, tile size, "
    "resampling method, set of times and direction of time. The oracle is the known position and velocity at each time, and which "
    "times have images. Non-trivial if the surface moves."
)
META["require"] = {
    "tracks": 200, "states": 800, "backward tracks": 40, "several observers": 40, "map observers": 20, "missing images": 40,
    "unmatched times": 40, "rejected times": 60, "likelihood surfaces": 60, "tolerant matches": 30, "masked observers": 20, "particles": 100000,
    "unusable images": 30, "known motions": 60, "informed velocities": 60, "mismatch scales": 20,
}
META["assumptions"] = [
    "texture has no detail finer than about four pixels, the surface is a plane and cameras have no distortion",
    "positions are judged at 6 deviations plus 0.4 pixels, velocities at 6 deviations plus 0.5 pixels per elapsed time",
]
def judge(m, s, tracks, i, times, images, backward=False):
    """A track against the truth at the times of its states."""
    times = list(tracks.datetimes)
    mean, xs, vs = tracks.means[i], tracks.xyz_sigma[i], tracks.vxyz_sigma[i]
    have = np.isfinite(mean).all(axis=1)
    first, last = np.argmax(images), len(images) - 1 - np.argmax(images[::-1])
    want = np.zeros(len(times), dtype=bool)
    want[first : last + 1] = True
    m.equal(have, want, "reported-states", images=images)
    m.equal(np.isfinite(xs).all(axis=1), want, "reported-spreads")
    if not (have == want).all():
        return
    steps = s.step / s.unit
    start = times[first]
    for j in range(first, last + 1):
        if not images[j]:
            continue
        m.count("states")
        truth = s.scene.at(times[j])
        tol = 6 * np.maximum(xs[j, :2], 0) + 0.4 * s.gsd
        m.check(bool((np.abs(mean[j, :2] - truth) <= tol).all()), "position", time=j, error=(mean[j, :2] - truth) / s.gsd, sigma=xs[j, :2] / s.gsd)
    # By the end, velocity is known from the distance covered
    elapsed = abs((times[last] - start) / s.unit) / steps
    per = s.gsd / steps
    n = int(images[first : last + 1].sum())
    if n > 2 and elapsed > 1.5:
        err = (mean[last, 3:5] - s.v) / per
        m.check(bool((np.abs(err) <= 6 * vs[last, :2] / per + 0.5 / elapsed + 0.15).all()), "velocity", error=err, sigma=vs[last, :2] / per)


def quiet(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = fn()
    return out, [str(i.message) for i in w if issubclass(i.category, UserWarning)]


def told(tracks, i):
    """Warnings to the user for a track."""
    if tracks.warnings is None or tracks.warnings[i] is None:
        return []
    return [str(w.message) for w in tracks.warnings[i] if issubclass(w.category, UserWarning)]


@workload(quick=120, thorough=1500)
def recovery(rng, m):
    s = Setup(rng, m, noise=float(gen.pick(rng, (0, 0, 3))))
    backward = rng.random() < 0.4
    times = sorted({t for seen in s.seen for t in seen}, reverse=backward)
    images = np.ones(len(times), dtype=bool)
    tile = tuple(int(v) for v in rng.integers(11, 20, 2))
    method = gen.pick(rng, METHODS)
    n = int(gen.pick(rng, (500, 800)))
    default = not backward and rng.random() < 0.5
    m.case(gsd=s.gsd, vpix=s.vpix, times=times, observers=[type(o.images[0]).__name__ for o in s.observers], tile=tile, method=method, backward=backward)
    m.count("several observers", len(s.observers) > 1)
    m.count("backward tracks", backward)
    tk = Tracker(s.observers, resample_method=method)
    k = rng.integers(1, 3)
    models = [s.model(rng, times[0], n=n) for _ in range(k)]
    kw = {} if default else {"datetimes": times}
    cov = rng.random() < 0.4
    tracks, caught = quiet(lambda: m.call(tk.track, models, tile_size=tile, return_covariances=cov, **kw))
    m.check((tracks.covariances is not None) == cov and (tracks.sigmas is not None) != cov, "covariances-if-asked")
    m.must(len(tracks.means) == k and list(tracks.datetimes) == times, "tracks-and-times", got=(len(tracks.means), tracks.datetimes))
    for i in range(k):
        m.count("tracks")
        m.count("particles", n * len(times))
        if k > 1:
            m.must(tracks.errors[i] is None, "completed", error=str(tracks.errors[i])[-800:])
        judge(m, s, tracks, i, times, images, backward)
        m.equal(told(tracks, i), [], "no-warnings")
    if default:
        m.equal(list(tracks.datetimes), sorted(set(times)), "default-times")


@workload(quick=12, thorough=150)
def informed(rng, m):
    """Images narrow down positions and velocities: without them, spreads grow with the spread of the velocities."""
    xs, vs = [], []
    for _ in range(7):
        s = Setup(rng, m, nobs=1, ntimes=5)
        s.observers[0].sigma = 0.1
        times = s.seen[0]
        tracks, _ = quiet(lambda: Tracker(s.observers).track([s.model(rng, times[0], n=500)], datetimes=times))
        elapsed = (times[-1] - times[0]) / s.step
        xs.extend(tracks.xyz_sigma[0, -1, :2] / s.gsd / elapsed)
        vs.extend(tracks.vxyz_sigma[0, -1, :2] / (s.gsd / (s.step / s.unit)))
        m.count("informed velocities")
    m.case(xs=xs, vs=vs)
    m.check(np.median(xs) < 0.4, "informed-position")
    m.check(np.median(vs) < 0.5, "informed-velocity")


@workload(quick=100, thorough=1000)
def selected_times(rng, m):
    """Requested times with and without images, repeated, or too far from any image."""
    s = Setup(rng, m)
    backward = rng.random() < 0.3
    all_times = sorted({t for seen in s.seen for t in seen}, reverse=backward)
    n = len(all_times)
    pick = sorted(rng.choice(n, size=int(rng.integers(2, n + 1)), replace=False).tolist())
    times = [all_times[i] for i in pick]
    maxdt = datetime.timedelta(0)
    if rng.random() < 0.4:
        # Times near those of images
        maxdt = s.step * 0.02
        # 1 s resolution: stay within the limit
        times = [t + maxdt * float(rng.uniform(-0.9, 0.9)) for t in times]
        m.count("tolerant matches")
    extra = []
    if rng.random() < 0.6:
        for _ in range(int(rng.integers(1, 3))):
            i = int(rng.integers(n))
            extra.append(all_times[i] + s.step * 0.4)
        m.count("unmatched times", len(extra))
    query = sorted(times + extra, reverse=backward)
    repeat = rng.random() < 0.3
    if repeat:
        i = int(rng.integers(len(query)))
        query.insert(i, query[i])
    m.case(query=query, maxdt=maxdt, seen=s.seen, backward=backward)
    m.count("backward tracks", backward)
    tk = Tracker(s.observers)
    model = s.model(rng, times[0], n=400)
    tracks, caught = quiet(lambda: tk.track([model], datetimes=query if rng.random() < 0.5 else np.array(query), maxdt=maxdt if rng.random() < 0.8 else -maxdt))
    m.count("tracks")
    m.must(list(tracks.datetimes) == times, "kept-times", got=list(tracks.datetimes), want=times)
    m.check(len(caught) >= bool(extra) + repeat, "warned", caught=caught)
    # Grid of images
    want = [[None] * len(s.seen) for _ in times]
    for i, t in enumerate(times):
        for j, seen in enumerate(s.seen):
            near = [q for q, u in enumerate(seen) if abs(t - u) <= maxdt]
            want[i][j] = near[0] if near else None
    m.equal([[None if v is None else int(v) for v in r] for r in tracks.images.tolist()], want, "matched-images")
    judge(m, s, tracks, 0, times, np.ones(len(times), dtype=bool), backward)


@workload(quick=60, thorough=600)
def masked(rng, m):
    """Each track uses only its own observers, and has states only between their images."""
    s = Setup(rng, m, nobs=int(rng.integers(2, 4)), ntimes=int(rng.integers(5, 8)))
    times = sorted({t for seen in s.seen for t in seen})
    nt = int(rng.integers(2, 4))
    mask = rng.random((nt, len(s.seen))) < 0.6
    if rng.random() < 0.7:
        for r in mask:
            r[rng.integers(len(r))] = True
    sub = sorted(rng.choice(len(times), size=int(rng.integers(3, len(times) + 1)), replace=False).tolist())
    times = [times[i] for i in sub]
    m.case(mask=mask, times=times, seen=s.seen)
    starts = []
    for r in mask:
        im = s.images_at(times, mask=r)
        starts.append(times[int(np.argmax(im))] if im.any() else times[0])
    models = [s.model(rng, t, n=400) for t in starts]
    tk = Tracker(s.observers)
    tracks, _ = quiet(lambda: tk.track(models, datetimes=times, observer_mask=mask))
    m.count("masked observers", (~mask).sum())
    for i, r in enumerate(mask):
        m.count("tracks")
        im = s.images_at(times, mask=r)
        if not im.any():
            m.check(bool(np.isnan(tracks.means[i]).all()), "nothing-seen", means=tracks.means[i])
            m.count("tracks without images")
            continue
        m.must(tracks.errors[i] is None, "completed", error=str(tracks.errors[i])[-800:])
        judge(m, s, tracks, i, times, im)


@workload(quick=60, thorough=900)
def known_motion(rng, m):
    """With no uncertainty, states are where the motion leads by each time, at any spacing of times."""
    n = int(rng.integers(3, 9))
    unit = gen.pick(rng, (HOUR, datetime.timedelta(days=1)))
    gaps = np.round(10 ** rng.uniform(1.5, 5, n - 1))
    times = [T0 + datetime.timedelta(seconds=float(g)) for g in np.append(0, np.cumsum(gaps))]
    backward = bool(rng.random() < 0.5)
    span = (times[-1] - times[0]) / unit
    v, a = rng.uniform(-15, 15, 2) / span, rng.uniform(-15, 15, 2) / span**2
    start = rng.uniform(-5, 5, 2) + gen.pick(rng, (0.0, 5e5))
    nobs = int(rng.integers(1, 4))
    observers, seen = [], []
    for j in range(nobs):
        keep = rng.random(n) < gen.pick(rng, (0.4, 0.8, 1.0))
        keep[rng.choice(n, 2, replace=False)] = True
        imgs = []
        for i in np.flatnonzero(keep):
            cam = Camera(imgsz=(90, 80), f=60, xyz=(*(start + rng.uniform(-3, 3, 2)), 60), viewdir=(rng.uniform(0, 360), -90, 0))
            img = Image(f"{j}-{i}", cam=cam, datetime=times[i])
            img.array = rng.integers(0, 255, (80, 90)).astype(np.uint8)
            imgs.append(img)
        observers.append(Observer(imgs, cache=False))
        seen.append(keep)
    nt = int(rng.integers(1, 4))
    mask = rng.random((nt, nobs)) < 0.7
    for r in mask:
        r[rng.integers(nobs)] = True
    asked = None if rng.random() < 0.5 and not backward else times[::-1] if backward else times
    union = np.any(seen, axis=0)
    order = [i for i in (range(n - 1, -1, -1) if backward else range(n)) if union[i]]
    m.case(times=times, mask=mask, seen=[k.tolist() for k in seen], backward=backward)
    models = [
        CartesianMotion(
            xy=start, time_unit=unit, dem=0, dem_sigma=None, n=40, xy_sigma=(0, 0), vxyz=(*v, 0),
            vxyz_sigma=(0, 0, 0), axyz=(*a, 0), axyz_sigma=(0, 0, 0),
        )
        for _ in range(nt)
    ]
    tk = Tracker(observers, resample_method=gen.pick(rng, METHODS))
    tracks, _ = quiet(lambda: tk.track(models, datetimes=asked, observer_mask=mask, tile_size=(5, 5)))
    m.equal(list(tracks.datetimes), [times[i] for i in order], "datetimes")
    for k in range(nt):
        m.count("known motions")
        has = np.any([s for s, r in zip(seen, mask[k]) if r], axis=0)[order]
        m.must(tracks.errors is None or tracks.errors[k] is None, "completed", error=str(tracks.errors)[-600:])
        first, last = np.flatnonzero(has)[[0, -1]]
        t = np.array([(times[i] - times[order[first]]) / unit for i in order])[:, None]
        want = np.hstack((start + v * t + 0.5 * a * t**2, np.zeros_like(t), v + a * t, np.zeros_like(t)))
        want[:first], want[last + 1 :] = np.nan, np.nan
        scale = np.array([1, 1, 1, *(1 / span,) * 3])
        m.close(tracks.means[k] / scale, want / scale, "ballistic", rtol=1e-9, atol=1e-6)


@workload(quick=80)
def rejected_times(rng, m):
    s = Setup(rng, m, nobs=1, ntimes=4)
    tk = Tracker(s.observers)
    t = list(s.seen[0])
    model = s.model(rng, t[0], n=50)
    kind = gen.pick(rng, ("shuffled", "one", "none", "same", "empty-range"))
    if kind == "shuffled":
        bad = [t[1], t[0], t[2]] if rng.random() < 0.5 else [t[1], t[2], t[0]]
    elif kind == "one":
        bad = [t[0], t[0] + s.step * 0.45]
    elif kind == "none":
        bad = [t[0] - s.step * 5, t[0] - s.step * 4, t[0] - s.step * 3]
    elif kind == "same":
        bad = [t[0], t[0]]
    else:
        bad = [t[0]]
    m.case(kind=kind, bad=bad)
    m.raises(ValueError, lambda: tk.track([model], datetimes=bad), "rejected")
    m.raises(ValueError, lambda: tk.parse_datetimes(bad), "rejected")
    m.count("rejected times")
    # Different units of time
    other = s.model(rng, t[0], n=50)
    other.time_unit = model.time_unit * 2
    m.raises(ValueError, lambda: tk.track([model, other]), "different-units")
    # Empty observer mask
    tracks = None
    try:
        tracks, _ = quiet(lambda: tk.track([model], observer_mask=np.zeros((1, 1), dtype=bool)))
    except ValueError:
        pass
    m.check(tracks is None or bool(np.isnan(tracks.means).all()), "nothing-seen")


@workload(quick=90, thorough=1500)
def likelihood_surface(rng, m):
    """Mismatch is smallest for particles at the true position, and zero where the image repeats."""
    s = Setup(rng, m, nobs=1, ntimes=3)
    obs = s.observers[0]
    kx, ky = (int(v) for v in rng.integers(1, 5, 2))
    tk = Tracker([obs], interpolation={"kx": kx, "ky": ky})
    tile = tuple(int(v) for v in rng.integers(11, 22, 2))
    t = s.seen[0]
    # The template is centered on the mean of the particles
    p = np.zeros((5, 6))
    p[:, :2] = s.scene.at(t[0]) + rng.uniform(-2, 2, 2) * s.gsd
    p[:, 2] = s.scene.z
    off = p[0, :2] - s.scene.at(t[0])
    tk.particles = p
    tk.initialize_weights()
    tk.initialize_template(obs=0, img=0, tile_size=tile)
    img = int(rng.integers(0, 3))
    truth = s.scene.at(t[img]) + off
    g = int(gen.pick(rng, (1, 5, 9)))
    d = np.linspace(-1, 1, g) * 1.0 if g > 1 else np.zeros(1)
    X, Y = np.meshgrid(d, d)
    shift = rng.uniform(-0.5, 0.5, 2) if g > 1 else np.zeros(2)
    q = np.zeros((g * g, 6))
    q[:, 0] = truth[0] + (X.ravel() + shift[0]) * s.gsd
    q[:, 1] = truth[1] + (Y.ravel() + shift[1]) * s.gsd
    q[:, 2] = s.scene.z
    tk.particles = q
    m.case(tile=tile, interpolation=(kx, ky), off=off / s.gsd, shift=shift, g=g)
    got = tk.compute_observer_log_likelihoods(0, img)
    m.must(got is not None and np.shape(got) == (g * g,), "one-per-particle", got=np.shape(got))
    m.count("likelihood surfaces")
    m.count("particles", g * g)
    sigma = obs.sigma
    sse = got * 2 * sigma**2
    # Interpolation may undershoot slightly
    m.check(bool((sse > -0.05).all()), "not-negative", worst=sse.min())
    m.check(tk.compute_observer_log_likelihoods(0, None) is None, "no-image")
    # Fixed scale: the mismatch at a given position depends on the texture alone
    if g == 1:
        m.check(sse[0] < 0.5, "match-at-truth", sse=sse[0])
        return
    # Least squares paraboloid: minimum at the truth
    u = obs.xyz_to_uv(q[:, :3], img)
    u0 = obs.xyz_to_uv(np.array([[*truth, s.scene.z]]), img)[0]
    e = u - u0
    A = np.column_stack((np.ones(len(e)), e, e[:, 0] ** 2, e[:, 0] * e[:, 1], e[:, 1] ** 2))
    inner = np.hypot(*e.T) < 1.6
    if inner.sum() < 12:
        return
    c = np.linalg.lstsq(A[inner], sse[inner], rcond=None)[0]
    H = np.array([[2 * c[3], c[4]], [c[4], 2 * c[5]]])
    if np.linalg.eigvalsh(H).min() > 0.1:
        low = -np.linalg.solve(H, c[1:3])
        m.check(bool((np.abs(low) < 0.5).all()), "minimum-at-truth", minimum=low, sse=sse.reshape(g, g))
        m.count("located minima")
    far = np.hypot(*e.T) > 0.9
    if far.any() and (~far).any():
        m.check(sse[far].mean() > sse[np.hypot(*e.T) < 0.5].mean() if (np.hypot(*e.T) < 0.5).any() else True, "grows", sse=sse.reshape(g, g))


@workload(quick=30, thorough=400)
def mismatch_scale(rng, m):
    """Unrelated noise differs by twice its variance, which is one once normalized."""
    folder = scratch()
    bands = int(gen.pick(rng, (1, 3)))
    n = int(rng.integers(90, 130))
    amplitude = float(rng.uniform(5, 30))
    sigma = float(np.exp(rng.uniform(np.log(0.05), np.log(5))))
    images = []
    for i in range(2):
        a = np.clip(rng.normal(rng.uniform(110, 140), amplitude, (n, n, bands)), 0, 255).astype(np.uint8)
        path = os.path.join(folder, f"{i}.png")
        PIL.Image.fromarray(a.squeeze()).save(path)
        cam = Camera(imgsz=(n, n), f=(1000, 1000), xyz=(0, 0, 1000), viewdir=(0, -90, 0))
        images.append(Image(path, cam=cam, datetime=T0 + i * HOUR))
    obs = Observer(images, sigma=sigma)
    tk = Tracker([obs], highpass={"size": (61, 61)})
    tile = tuple(int(v) for v in rng.integers(30, 50, 2))
    p = np.zeros((150, 6))
    p[:, :2] = rng.uniform(-8, 8, (150, 2))
    tk.particles = p
    tk.initialize_weights()
    tk.initialize_template(obs=0, img=0, tile_size=tile)
    m.case(n=n, bands=bands, sigma=sigma, tile=tile)
    got = tk.compute_observer_log_likelihoods(0, 1)
    m.must(got is not None and np.shape(got) == (150,), "one-per-particle", got=np.shape(got))
    sse = got * 2 * sigma**2
    m.check(bool(1.8 < sse.mean() < 2.2), "unrelated", mean=sse.mean())
    m.check(bool(sse.std() < 0.5), "spread", std=sse.std())
    # At the position of the template in its own image there is no mismatch
    q = np.zeros((1, 6))
    q[0, :2] = tk.particle_mean[:2]
    tk.particles, tk.weights = q, np.ones(1)
    same = tk.compute_observer_log_likelihoods(0, 0)[0] * 2 * sigma**2
    m.check(bool(abs(same) < 0.2), "identical", mismatch=same)
    m.count("mismatch scales")


@workload(quick=60, thorough=600)
def unusable_images(rng, m):
    """Images which cannot be compared (blank, missing values) are skipped with a warning, never believed."""
    s = Setup(rng, m, nobs=1, ntimes=5)
    size = (120, 110)
    times = list(s.times)
    bad = int(rng.integers(1, 5))
    kind = gen.pick(rng, ("blank", "missing", "elsewhere"))
    imgs = []
    for i, t in enumerate(times):
        c = s.scene.at(T0)
        z, x, y = s.scene.orthophoto(size, t, center=c)
        z = z.astype(float)
        if i == bad and kind == "blank":
            z[:] = 255
        elif i == bad and kind == "missing":
            # Partly missing around the point
            u, v = ((s.scene.at(t) - (x[0], y[0])) / (s.gsd, -s.gsd)).astype(int)
            z[v - 3 : v + 9, u - 4 : u + 3] = np.nan
        elif i == bad:
            z, x, y = s.scene.orthophoto(size, t, center=c + s.gsd * 200)
        imgs.append(Raster(z, x=x, y=y, datetime=t))
    m.case(kind=kind, bad=bad, vpix=s.vpix)
    m.count("unusable images")
    s.observers, s.seen = [Observer(imgs)], [times]
    tk = Tracker(s.observers)
    models = [s.model(rng, times[0], n=500) for _ in range(2)]
    tracks, _ = quiet(lambda: tk.track(models, datetimes=times))
    for i in range(2):
        m.count("tracks")
        if tracks.errors[i] is not None:
            m.fail("completed", error=str(tracks.errors[i])[-600:])
            continue
        if kind == "elsewhere":
            m.check(len(told(tracks, i)) > 0, "warned")
        # The others still locate the point
        last = len(times) - 1
        m.must(bool(np.isfinite(tracks.means[i]).all()), "finite")
        for j in range(len(times)):
            if j == bad:
                continue
            tol = 6 * tracks.xyz_sigma[i, j, :2] + 0.4 * s.gsd
            err = tracks.means[i, j, :2] - s.scene.at(times[j])
            m.check(bool((np.abs(err) <= tol).all()), "position", error=err / s.gsd, time=j, bad=bad)
