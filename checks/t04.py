import time
import warnings
import numpy as np
import sharedmem
from gmon import META, workload, gen
from glimpse import Raster, Tracker, config
from gmon import tracking

META["rule"] = (
    "A case is a set of tracks over a synthetic scene whose random draws are fixed per track, run alone, together, in another order, "
    "in parallel with a random number of workers and random delays injected into each step, with and without cached images, and next to "
    "tracks made to fail at a random step in a random way. The oracle is the run alone: results must be identical. Other cases use "
    "free-running random numbers, and compare draws between tracks and calls, or worker threads, and compare with the true motion."
)
META["require"] = {
    "tracks compared": 500, "parallel runs": 60, "failed tracks": 150, "delays": 300, "failures alone": 60, "independent draws": 100,
    "uncached runs": 15, "workers": 150, "reduced": 50, "threaded tracks": 40, "masked observers": 30, "reused trackers": 30,
}
META["assumptions"] = [
    "random numbers come from numpy.random, as documented by the use of its functions throughout",
    "exception types are importable, so that they can be returned from worker processes",
]


class Odd(Exception):
    """An exception that cannot be built from a message."""

    def __init__(self, code, reason):
        super().__init__(code, reason)


class Fault:
    def __init__(self, kind, step):
        self.kind, self.step = kind, step

    def error(self):
        return {"value": ValueError("broken-7"), "key": KeyError("broken-7"), "odd": Odd(3, "broken-7"), "os": FileNotFoundError(2, "broken-7")}.get(
            self.kind, RuntimeError("broken-7")
        )


def guarded(model, seed, delays=None, fault=None):
    """Fix the random draws of a track, and optionally delay its steps or make it fail."""
    init, evolve, like = model.initialize_particles, model.evolve_particles, model.compute_log_likelihoods
    state = {}

    def initialize_particles():
        if seed is not None:
            np.random.seed(seed)
        state["step"] = 0
        p = init()
        wait()
        if fault and fault.step == 0:
            p = spoil(p)
        return p

    def wait():
        if delays is not None:
            time.sleep(delays[state["step"] % len(delays)])

    def spoil(p):
        if fault.kind == "nan":
            p[len(p) // 2, 1] = np.nan
        elif fault.kind == "hidden":
            p[:, 0] += 1e4
        elif fault.kind == "shape":
            return p[:, :4]
        else:
            raise fault.error()
        return p

    def evolve_particles(particles, dt):
        state["step"] += 1
        wait()
        evolve(particles, dt)
        if fault and fault.step == state["step"]:
            if fault.kind == "shape":
                raise fault.error()
            spoil(particles)

    model.initialize_particles = initialize_particles
    model.evolve_particles = evolve_particles
    return model


def build(rng, s, starts, seeds, n, viewed=None):
    """Functions that make each model afresh."""
    models = []
    for t, seed in zip(starts, seeds):
        models.append((s.model(rng, t, n=n), seed))

    def make(i, delays=None, fault=None, seeded=True):
        import copy
        model, seed = models[i]
        return guarded(copy.copy(model), seed if seeded else None, delays, fault)

    return make


FIELDS = ("means", "sigmas", "covariances", "particles", "weights")


def pick_fields(tracks, i):
    return {f: np.array(getattr(tracks, f)[i]) for f in FIELDS if getattr(tracks, f) is not None}


def same(m, got, want, mech, **info):
    """Equal up to rounding errors, which depend on how arrays lie in memory."""
    m.must(set(got) == set(want), "same-fields", got=sorted(got), want=sorted(want))
    for f, w in want.items():
        g = got[f]
        if g.shape != w.shape or (np.isnan(g) != np.isnan(w)).any():
            m.fail(mech, field=f, actual=g, expected=w, **info)
            continue
        if f == "weights":
            tol = 1e-8 * np.abs(w)
        elif f == "covariances":
            d = np.abs(w[:, range(6), range(6)])
            d = np.sqrt(np.hstack((np.repeat(d[:, :3].max(axis=1, keepdims=True), 3, 1), np.repeat(d[:, 3:].max(axis=1, keepdims=True), 3, 1))))
            tol = 1e-6 * d[:, :, None] * d[:, None, :]
        else:
            with np.errstate(all="ignore"), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                rtol = 1e-6 if f == "sigmas" else 1e-12
                tol = rtol * np.repeat(np.stack((np.nanmax(np.abs(w[..., :3])), np.nanmax(np.abs(w[..., 3:])))), 3)
        bad = np.abs(g - w) > tol
        m.check(not bad.any(), mech, field=f, actual=g, expected=w, differ=int(bad.sum()), **info)
    m.count("tracks compared")


def reduction(particles, weights):
    return float(np.nansum(particles[:, ::7] * 3.0)), float(np.nansum(weights)), *particles.shape


class Experiment:
    def __init__(self, rng, m, nobs=None, k=None):
        self.rng, self.m = rng, m
        self.s = s = tracking.Setup(rng, m, nobs=nobs, ntimes=int(rng.integers(4, 6)))
        self.times = sorted({t for seen in s.seen for t in seen})
        self.k = k or int(rng.integers(2, 7))
        self.n = int(gen.pick(rng, (60, 100)))
        self.mask = None
        if len(s.seen) > 1 and rng.random() < 0.6:
            self.mask = rng.random((self.k, len(s.seen))) < 0.7
            for r in self.mask:
                r[rng.integers(len(r))] = True
            m.count("masked observers")
        starts = []
        for i in range(self.k):
            im = s.images_at(self.times, mask=None if self.mask is None else self.mask[i])
            starts.append(self.times[int(np.argmax(im))])
        self.first = [self.times.index(t) for t in starts]
        self.make = build(rng, s, starts, rng.choice(10**6, self.k, replace=False).tolist(), self.n)
        self.options = {
            "return_covariances": bool(rng.random() < 0.4), "return_particles": bool(rng.random() < 0.6), "tile_size": (11, 13),
        }
        self.viewshed = None
        if rng.random() < 0.5:
            x, y = (s.scene.at(tracking.T0)[:, None] + np.array([-300, 300]) * s.gsd)
            self.viewshed = Raster(np.ones((8, 9), dtype=bool), x=x, y=y[::-1])
        self.method = gen.pick(rng, tracking.METHODS)
        if rng.random() < 0.5:
            self.options["datetimes"] = self.times

    def tracker(self):
        return Tracker(self.s.observers, viewshed=self.viewshed, resample_method=self.method)

    def run(self, order, tracker=None, delays=False, faults={}, cache=None, **kw):
        rng = self.rng
        models = []
        for i in order:
            d = rng.choice([0, 0.001, 0.004, 0.012], 5).tolist() if delays else None
            self.m.count("delays", 5 * bool(delays))
            models.append(self.make(i, d, faults.get(i)))
        if self.mask is not None:
            kw["observer_mask"] = self.mask[list(order)]
        for o in self.s.observers:
            if cache is not None:
                o.cache = cache
            for img in o.images:
                if not isinstance(img, Raster):
                    img.array = None
        options = dict(self.options)
        options.update(kw)
        tk = tracker or self.tracker()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return tk.track(models, **options)


@workload(quick=64, thorough=700)
def schedules(rng, m):
    """Every way of running a set of tracks gives what each gives alone."""
    e = Experiment(rng, m)
    alone = [pick_fields(e.run([i]), 0) for i in range(e.k)]
    m.case(k=e.k, method=e.method, options=sorted(e.options), mask=e.mask)
    used = e.tracker()
    for way in range(3):
        order = rng.permutation(e.k).tolist()
        np.random.seed(int(rng.integers(1000)))
        kw = {}
        kind = ("serial", "parallel", gen.pick(rng, ("uncached", "parallel-true", "reduced")))[way]
        if kind in ("parallel", "uncached", "reduced"):
            kw["parallel"] = int(rng.integers(1, 9)) if kind == "parallel" or rng.random() < 0.5 else 0
        if kind == "parallel-true":
            kw["parallel"] = True
        if kind == "uncached":
            kw["cache"] = False
            m.count("uncached runs")
        if kind == "reduced":
            kw["reduce_particles"] = reduction
        if kw.get("parallel"):
            m.count("parallel runs")
            m.count("workers", kw["parallel"] if kw["parallel"] is not True else 2)
        tracks = e.run(order, delays=bool(rng.random() < 0.7), tracker=used if rng.random() < 0.6 else None, **kw)
        m.count("reused trackers")
        m.must(len(tracks.means) == e.k, "one-per-model", got=len(tracks.means))
        m.check(bool(np.all(tracks.success)), "success", errors=[str(x)[-300:] for x in tracks.errors])
        for j, i in enumerate(order):
            got, want = pick_fields(tracks, j), dict(alone[i])
            if kind == "reduced":
                m.check(tracks.particles is None and tracks.weights is None, "reduced-instead")
                m.count("reduced")
                if "particles" in want:
                    m.close(np.array(tracks.reduced[j]), np.array(reduction(want["particles"], want["weights"])), "reduced-in-order", rtol=1e-8)
                want.pop("particles", None), want.pop("weights", None)
            same(m, got, want, f"same-as-alone-{kind.split('-')[0]}", order=order, track=i, kw=kw)
        if kind == "reduced":
            m.must(len(tracks.reduced) == e.k, "one-reduced-per-model")


@workload(quick=64, thorough=700)
def faults(rng, m):
    """A failing track reports its error and no later states; the others are untouched."""
    e = Experiment(rng, m, k=int(rng.integers(2, 6)))
    alone = [pick_fields(e.run([i]), 0) for i in range(e.k)]
    kinds = ["value", "key", "odd", "os", "nan", "shape"] + ["hidden"] * (e.viewshed is not None)
    nbad = int(rng.integers(1, e.k + 1))
    bad = sorted(rng.choice(e.k, nbad, replace=False).tolist())
    spans = {i: np.nonzero(np.isfinite(alone[i]["means"][:, 0]))[0] for i in range(e.k)}
    plan = {i: Fault(gen.pick(rng, kinds), int(rng.integers(0, len(spans[i])))) for i in bad}
    m.case(k=e.k, faults={i: (f.kind, f.step) for i, f in plan.items()}, method=e.method, mask=e.mask)
    par = int(gen.pick(rng, (0, 0, 1, 2, 5)))
    order = rng.permutation(e.k).tolist()
    ok, tracks = m.returns(lambda: e.run(order, delays=bool(rng.random() < 0.5), faults=plan, parallel=par), "isolated")
    if not ok:
        return
    m.count("parallel runs", par > 0)
    m.count("workers", par)
    m.must(len(tracks.means) == e.k and len(tracks.errors) == e.k, "one-per-model")
    m.equal([bool(x) for x in tracks.success], [i not in plan for i in order], "success", errors=[str(x)[-200:] for x in tracks.errors])
    for j, i in enumerate(order):
        got = pick_fields(tracks, j)
        if i not in plan:
            same(m, got, alone[i], "others-unaffected", order=order, faults=list(plan), parallel=par)
            m.check(tracks.errors[j] is None, "no-error")
            continue
        f = plan[i]
        m.count("failed tracks")
        err = tracks.errors[j]
        m.must(isinstance(err, BaseException), "own-error", got=repr(err)[:200])
        if f.kind in ("value", "key", "os", "odd"):
            m.check("broken-7" in str(err) or "broken-7" in repr(err.args), "own-error", kind=f.kind, got=str(err)[-200:])
        if f.kind in ("value", "key"):
            m.check(type(err) is type(f.error()), "same-type", kind=f.kind, got=type(err).__name__)
        if f.kind == "nan":
            m.check(isinstance(err, ValueError), "own-error", kind=f.kind, got=str(err)[-200:])
        if f.kind == "hidden":
            m.check(isinstance(err, ValueError), "own-error", kind=f.kind, got=str(err)[-200:])
        # States up to the failure, none after
        at = spans[i][0] + f.step
        for name, v in got.items():
            m.check(bool(np.isnan(v[at:]).all()), "missing-after-failure", field=name, kind=f.kind, step=f.step)
        same(m, {k: v[:at] for k, v in got.items()}, {k: v[:at] for k, v in alone[i].items()}, "states-before-failure", kind=f.kind) if at else None
    # Alone, it raises
    i = bad[0]
    m.count("failures alone")
    try:
        e.run([i], faults=plan, parallel=0)
        m.fail("raises-alone", kind=plan[i].kind)
    except Exception as err:
        want = {"value": ValueError, "key": KeyError, "odd": Odd, "os": FileNotFoundError, "nan": ValueError, "hidden": ValueError}.get(plan[i].kind, Exception)
        m.check(isinstance(err, want), "raises-alone", kind=plan[i].kind, got=repr(err)[:200])
        m.check(True, "raises-alone")
    # and does not spoil what follows
    again = [j for j in range(e.k) if j not in plan][:1]
    for j in again:
        same(m, pick_fields(e.run([j]), 0), alone[j], "recovers")


@workload(quick=40, thorough=400)
def image_faults(rng, m):
    """Files that cannot be read fail only the tracks which need them."""
    import os
    e = Experiment(rng, m, nobs=2, k=int(rng.integers(3, 6)))
    s = e.s
    photos = [j for j, o in enumerate(s.observers) if not isinstance(o.images[0], Raster)]
    if len(photos) < 1:
        m.trivial()
        return
    e.mask = np.zeros((e.k, 2), dtype=bool)
    bad = gen.pick(rng, photos)
    uses = rng.random(e.k) < 0.5
    e.mask[:, 1 - bad] = True
    e.mask[uses, bad] = True
    e.times = list(s.seen[1 - bad])
    e.options["datetimes"] = e.times
    e.make = build(rng, s, [e.times[0]] * e.k, rng.choice(10**6, e.k, replace=False).tolist(), e.n)
    m.case(k=e.k, uses=uses, bad=bad)
    alone = [pick_fields(e.run([i]), 0) for i in range(e.k)]
    # Both kinds of reading: without a cache, only tracks that use the image read it
    common = [t for t in s.seen[bad] if t in e.times]
    if not common:
        m.trivial()
        return
    lost = s.seen[bad].index(gen.pick(rng, common))
    path = s.observers[bad].images[lost].path
    with open(path, "wb") as fp:
        fp.write(b"not an image")
    for o in s.observers:
        o.cache = False
    par = int(gen.pick(rng, (0, 1, 3)))
    ok, tracks = m.returns(lambda: e.run(list(range(e.k)), parallel=par, cache=False), "isolated")
    if not ok:
        return
    m.count("parallel runs", par > 0)
    m.equal([bool(x) for x in tracks.success], (~uses).tolist(), "success", errors=[str(x)[-300:] for x in tracks.errors])
    for i in range(e.k):
        if uses[i]:
            m.count("failed tracks")
            m.check(isinstance(tracks.errors[i], Exception), "own-error")
            m.check(bool(np.isnan(tracks.means[i, e.times.index(s.seen[bad][lost]):]).all()), "missing-after-failure")
        else:
            same(m, pick_fields(tracks, i), alone[i], "others-unaffected", parallel=par)


@workload(quick=40, thorough=500)
def draws(rng, m):
    """Random numbers are never shared between tracks, nor between calls."""
    s = tracking.Setup(rng, m, nobs=1, ntimes=4)
    k = int(rng.integers(2, 9))
    n = 40
    models = [s.model(rng, s.seen[0][0], n=n)] * k if rng.random() < 0.5 else None
    if models is None:
        one = s.model(rng, s.seen[0][0], n=n)
        import copy
        models = [copy.copy(one) for _ in range(k)]
    par = gen.pick(rng, (0, 1, 2, 3, 8, True))
    m.case(k=k, parallel=par)
    tk = Tracker(s.observers, resample_method=gen.pick(rng, tracking.METHODS))
    seen = []
    np.random.seed(int(rng.integers(10**6)))
    for call in range(2):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tracks = tk.track(models, return_particles=True, parallel=par)
        m.must(all(x is None for x in tracks.errors), "completed", errors=[str(x)[-300:] for x in tracks.errors])
        for i in range(k):
            seen.append(tracks.particles[i])
    for a in range(len(seen)):
        m.count("independent draws")
        # Same starting distribution, so standardized draws are comparable
        for b in range(a):
            pa, pb = seen[a][0, :, 0], seen[b][0, :, 0]
            m.check(not np.isin(pa, pb).any(), "own-draws", tracks=(a, b), parallel=par)
            c = np.corrcoef(pa, pb)[0, 1]
            m.check(abs(c) < 0.85, "uncorrelated", tracks=(a, b), r=c, parallel=par)
    # Resampling, too: with identical weights for all, choices would coincide
    if par:
        m.count("parallel runs")


@workload(quick=14, thorough=150)
def threads(rng, m):
    """Worker threads instead of processes."""
    s = tracking.Setup(rng, m, nobs=int(rng.integers(1, 3)), ntimes=4)
    times = sorted({t for seen in s.seen for t in seen})
    k = int(rng.integers(3, 7))
    m.case(k=k)
    # Each with a different known velocity and place
    base = [s.model(rng, times[0], n=300) for _ in range(k)]
    d = rng.uniform(-8, 8, (k, 2)) * s.gsd
    models = []
    for model, di in zip(base, d):
        model.xy = tuple(np.asarray(model.xy) + di)
        models.append(guarded(model, None, delays=rng.choice([0, 0.002, 0.01], 5).tolist()))
    tk = Tracker(s.observers)
    before = config.backend
    filters, show = warnings.filters[:], warnings.showwarning
    try:
        config.backend = sharedmem.MapReduceByThread
        tracks = tk.track(models, datetimes=times, parallel=int(rng.integers(2, 6)))
    finally:
        config.backend = before
        warnings.filters[:], warnings.showwarning = filters, show
        warnings.resetwarnings()
        warnings.filters[:] = filters
    for i in range(k):
        m.count("threaded tracks")
        m.must(tracks.errors[i] is None, "completed", error=str(tracks.errors[i])[-400:])
        for j, t in enumerate(times):
            err = tracks.means[i, j, :2] - s.scene.at(t) - d[i]
            m.check(bool((np.abs(err) <= 6 * tracks.xyz_sigma[i, j, :2] + 0.4 * s.gsd).all()), "own-states", error=err / s.gsd, time=j)
        m.check(abs(tracks.means[i, 0, :2] - s.scene.at(times[0]) - d[i]).max() < s.gsd, "own-start")
