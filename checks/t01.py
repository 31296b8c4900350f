import datetime
import numpy as np
from gmon import META, workload, gen
from glimpse import Raster
from glimpse.track import CartesianMotion, CylindricalMotion, TangentCartesianMotion, TangentCylindricalMotion
from glimpse.track.motion import Motion

META["rule"] = (
    "A case is a motion model (class, means, spreads, accelerations, scalar or raster surfaces, time unit) whose particles are "
    "initialized and evolved over random time steps of either sign. The oracle is the stated kinematics worked out for each "
    "particle, moments of the requested distributions, and the surface as a formula. Non-trivial if any particle moves."
)
META["require"] = {
    "initializations": 600, "moments": 1500, "steps": 1500, "particles evolved": 100000, "backward steps": 400, "scalar surfaces": 200,
    "particles at rest": 100, "particles along an axis": 500, "no surface uncertainty": 100, "likelihoods": 150, "unit changes": 100, "missing uncertainty values": 40,
}
META["assumptions"] = [
    "surfaces given as rasters are planes, which bilinear sampling reproduces exactly",
    "cylindrical motion with a change of direction is judged to the order of its time step, by the bound on the neglected terms",
    "moments are judged at 6 standard errors",
]
UNITS = [datetime.timedelta(seconds=1), datetime.timedelta(hours=1), datetime.timedelta(days=1), datetime.timedelta(minutes=7)]
CLASSES = (Motion, CartesianMotion, CylindricalMotion, TangentCartesianMotion, TangentCylindricalMotion)


class Surface:
    """A plane or a constant, as argument and as formula."""

    def __init__(self, rng, m, xy, z0, slope, allow_none=False, positive=False):
        kind = rng.random()
        self.a, self.b, self.c = 0.0, 0.0, float(z0)
        self.xy = np.array(xy)
        if allow_none and kind < 0.3:
            self.arg, self.c = None, 0.0
            m.count("no surface uncertainty")
        elif kind < 0.6:
            self.arg = gen.pick(rng, (self.c, int(self.c)))
            self.c = float(self.arg)
            m.count("scalar surfaces")
        else:
            self.a, self.b = (float(v) for v in rng.uniform(-slope, slope, 2))
            h = 5e4
            n = [int(v) for v in rng.integers(3, 8, 2)]
            dx, dy = 2 * h / n[0], 2 * h / n[1]
            x = xy[0] - h + (np.arange(n[0]) + 0.5) * dx
            y = xy[1] + h - (np.arange(n[1]) + 0.5) * dy
            z = self.at(np.stack(np.meshgrid(x, y), -1).reshape(-1, 2)).reshape(n[1], n[0])
            if positive and z.min() < 0:
                self.a = self.b = 0.0
                z = np.full(z.shape, self.c)
            self.arg = Raster(z, x=(xy[0] - h, xy[0] + h), y=(xy[1] + h, xy[1] - h))
            m.count("raster surfaces")

    def at(self, xy):
        d = np.asarray(xy) - self.xy
        return self.c + self.a * d[:, 0] + self.b * d[:, 1]


def vec(rng, n, scale, zero=0.25):
    v = rng.uniform(-1, 1, n) * scale
    v[rng.random(n) < zero] = 0
    return [float(i) for i in v]


def pos(rng, n, scale, zero=0.25):
    return [abs(v) for v in vec(rng, n, scale, zero)]


def kwargs(rng, m, cls, n, random_acceleration=None):
    """Arguments of a model, and its surfaces."""
    xy = [float(v) for v in (rng.uniform(-100, 100, 2) if rng.random() < 0.6 else rng.uniform(4e5, 6e5, 2))]
    unit = gen.pick(rng, UNITS)
    if cls is Motion:
        return dict(xy=xy, time_unit=unit, n=n, vxyz_sigma=pos(rng, 3, 5)), None, None
    dem = Surface(rng, m, xy, rng.uniform(-50, 3000), 0.2)
    tangent = cls in (TangentCartesianMotion, TangentCylindricalMotion)
    sig = Surface(rng, m, xy, rng.uniform(0, 5) * (rng.random() < 0.8), 1e-6, allow_none=not tangent, positive=True)
    k = dict(xy=xy, time_unit=unit, n=n, dem=dem.arg, xy_sigma=pos(rng, 2, 3))
    if sig.arg is not None or rng.random() < 0.5:
        k["dem_sigma"] = sig.arg
    elif not tangent:
        pass
    if tangent and rng.random() < 0.2:
        k.pop("dem_sigma", None)
        sig.a = sig.b = sig.c = 0.0
    if random_acceleration is None:
        random_acceleration = rng.random() < 0.5
    za = 0.4 if random_acceleration else 1.0
    d = 2 if tangent else 3
    if cls in (CartesianMotion, TangentCartesianMotion):
        s = "xyz"[:d]
        k.update({f"v{s}": vec(rng, d, 5), f"v{s}_sigma": pos(rng, d, 2), f"a{s}": vec(rng, d, 1), f"a{s}_sigma": pos(rng, d, 0.5, za)})
    else:
        s = "rth" if tangent else "rthz"
        r = float(rng.uniform(0, 8)) * (rng.random() < 0.8)
        k[f"v{s}"] = [r, float(rng.uniform(-4, 4))] + vec(rng, d - 2, 3)
        k[f"v{s}_sigma"] = [r * 0.05, float(rng.uniform(0, 0.4)) * (rng.random() < 0.7)] + pos(rng, d - 2, 1)
        k[f"a{s}"] = [float(rng.uniform(-1, 1)) * (rng.random() < 0.7), float(rng.uniform(-0.3, 0.3)) * (rng.random() < 0.6)] + vec(rng, d - 2, 1)
        k[f"a{s}_sigma"] = [float(rng.uniform(0, 0.3)) * random_acceleration, float(rng.uniform(0, 0.1)) * random_acceleration] + pos(rng, d - 2, 0.5, za)
    if tangent:
        k["slope_sigma"] = float(rng.uniform(0, 0.3)) * (rng.random() < 0.5)
    for key in k:
        if isinstance(k[key], list) and rng.random() < 0.5:
            k[key] = np.array(k[key]) if rng.random() < 0.5 else tuple(k[key])
    return k, dem, sig


def get(k, stem):
    """Mean and spread of velocity (stem 'v') or acceleration ('a')."""
    for s in ("xyz", "xy", "rthz", "rth"):
        if stem + s in k or stem + s + "_sigma" in k:
            sd = np.array(k.get(f"{stem}{s}_sigma"), dtype=float)
            return np.array(k.get(stem + s, np.zeros(len(sd))), dtype=float), sd
    return np.zeros(3), np.zeros(3)


def show(cls, k):
    return {"model": cls.__name__, **{i: (j.array.shape if isinstance(j, Raster) else j) for i, j in k.items()}}


def moments(m, x, mean, sd, mech):
    """Sample of independent normal variables."""
    n = len(x)
    m.count("moments")
    m.must(bool(np.isfinite(x).all()), mech + "-finite", bad=x[~np.isfinite(x)][:5])
    tiny = 1e-9 * max(1, abs(mean))
    if sd == 0:
        m.close(x, np.full(n, mean), mech + "-exact", rtol=1e-9, atol=tiny)
        return
    z = (x.mean() - mean) / (sd / n**0.5)
    m.check(abs(z) < 6 or abs(x.mean() - mean) < tiny, mech + "-mean", mean=mean, got=x.mean(), z=z)
    z = (x.std() / sd - 1) * (2 * n) ** 0.5
    m.check(abs(z) < 6.5 or sd < tiny, mech + "-spread", sd=sd, got=x.std(), z=z)


def offsets(p, dem):
    return p[:, 2] - dem.at(p[:, :2])


@workload(quick=900)
def initialize(rng, m):
    cls = gen.pick(rng, CLASSES)
    n = int(gen.pick(rng, (1, 7, 3000, 3000, 3000)))
    k, dem, sig = kwargs(rng, m, cls, n)
    m.case(**show(cls, k))
    model = m.call(cls, **k)
    for _ in range(int(rng.integers(1, 4))):
        p = m.call(model.initialize_particles)
        m.count("initializations")
        m.must(isinstance(p, np.ndarray) and p.shape == (n, 6), "shape", got=getattr(p, "shape", type(p)))
        m.must(bool(np.isfinite(p).all()), "finite")
        if n < 100:
            if not np.any(get(k, "v")[1]) and cls in (CartesianMotion, TangentCartesianMotion):
                v = get(k, "v")[0]
                m.close(p[:, 3 : 3 + len(v)], np.tile(v, (n, 1)), "velocity-exact")
            continue
        xs = np.array(k.get("xy_sigma", (0, 0)), dtype=float)
        for i in range(2):
            moments(m, p[:, i], k["xy"][i], xs[i], "position")
        v, s = get(k, "v")
        if cls in (Motion, CartesianMotion, TangentCartesianMotion):
            for i in range(len(v)):
                moments(m, p[:, 3 + i], v[i], s[i], "velocity")
        else:
            vx, vy = p[:, 3], p[:, 4]
            if v[0] > 0 and s[1] < 0.5:
                # Components along and around the mean direction
                moments(m, np.hypot(vx, vy), v[0], s[0], "speed")
                th = np.angle((vx + 1j * vy) * np.exp(-1j * v[1]))
                moments(m, th, 0.0, s[1], "direction")
            else:
                m.close(np.hypot(vx, vy), np.zeros(n), "rest", atol=1e-12)
            if len(v) == 3:
                moments(m, p[:, 5], v[2], s[2], "velocity")
        if cls in (TangentCartesianMotion, TangentCylindricalMotion):
            m.equal(p[:, 5], np.zeros(n), "no-vertical-velocity")
        if dem is None:
            m.equal(p[:, 2], np.zeros(n), "height-zero")
            continue
        dz, zs = offsets(p, dem), sig.at(p[:, :2])
        tol = 1e-9 * (abs(dem.c) + 1e4)
        if not zs.any():
            m.close(dz, np.zeros(n), "on-surface", atol=tol)
        else:
            m.must(bool((zs > 0).all()), "harness")
            moments(m, dz / zs, 0.0, 1.0, "height")
        # Independent components
        c = np.corrcoef(np.column_stack([q for q in (p[:, 0], p[:, 1], dz, p[:, 3], p[:, 4], p[:, 5], rng.random(n)) if q.std() > 1e-6]).T)
        c = c[np.isfinite(c)]
        if cls in (CartesianMotion, TangentCartesianMotion):
            off = np.abs(c[np.abs(c) < 1 - 1e-9])
            m.check(not len(off) or off.max() < 6.5 / n**0.5, "independent", worst=off.max(initial=0))
    m.equal([np.array(model.xy).tolist(), model.n], [np.array(k["xy"]).tolist(), n], "model-unchanged")


def start(rng, m, model, k, cls, rest=False):
    p = model.initialize_particles()
    if rng.random() < 0.4:
        # As after resampling: any order and any state
        p = p[rng.integers(0, len(p), len(p))]
    if rest and cls in (CylindricalMotion, TangentCylindricalMotion):
        p[: len(p) // 3, 3:5] = 0
        m.count("particles at rest", len(p) // 3)
    if rng.random() < 0.3:
        # Moving along either axis
        along = rng.integers(0, 6, len(p))
        for j in (0, 1):
            sel = (along == j) & (p[:, 3:5] != 0).all(axis=1)
            p[sel, 3 + j] = 0
            m.count("particles along an axis", sel.sum())
    return p


def step(rng, unit, small=False):
    f = float(rng.uniform(-1, 1)) * (0.5 if small else gen.pick(rng, (0.1, 1, 3)))
    s = round(f * unit.total_seconds(), 6)
    return datetime.timedelta(seconds=s)


def rounding(p):
    return 1e-9 * (np.abs(p).max() + 10)


@workload(quick=1600)
def fixed_physics(rng, m):
    """No random accelerations: trajectories follow from the initial state."""
    cls = gen.pick(rng, CLASSES)
    n = int(gen.pick(rng, (1, 5, 60)))
    k, dem, _ = kwargs(rng, m, cls, n, random_acceleration=False)
    if "slope_sigma" in k:
        k["slope_sigma"] = 0
    m.case(**show(cls, k))
    model = cls(**k)
    unit = k["time_unit"]
    p0 = start(rng, m, model, k, cls, rest=rng.random() < 0.4)
    acc = get(k, "a")[0]
    tangent = cls in (TangentCartesianMotion, TangentCylindricalMotion)
    cyl = cls in (CylindricalMotion, TangentCylindricalMotion)
    p = p0.copy()
    for _ in range(int(rng.integers(1, 5))):
        before = p.copy()
        dt = step(rng, unit, small=cyl)
        t = dt.total_seconds() / unit.total_seconds()
        r = model.evolve_particles(p, dt=dt) if rng.random() < 0.5 else model.evolve_particles(p, dt)
        m.must(r is None and p.shape == (n, 6), "in-place", returned=r)
        m.count("steps")
        m.count("backward steps", t < 0)
        m.count("particles evolved", n)
        m.must(bool(np.isfinite(p).all()), "finite", before=before, after=p, dt=dt)
        tol = rounding(before)
        v0 = before[:, 3:6]
        if not cyl:
            a = np.zeros(3)
            a[: len(acc)] = acc
            dx = v0 * t + 0.5 * a * t * t
            m.close(p[:, 3:6], v0 + a * t, "velocity", atol=tol)
            m.close(p[:, :2], before[:, :2] + dx[:, :2], "position", atol=tol)
            if not tangent:
                m.close(p[:, 2], before[:, 2] + dx[:, 2], "position", atol=tol)
        else:
            r0 = np.hypot(v0[:, 0], v0[:, 1])
            th = np.arctan2(v0[:, 1], v0[:, 0])
            moving = r0 > 0
            ar, ath = acc[0], acc[1]
            a = np.column_stack((ar * np.cos(th) - r0 * np.sin(th) * ath, ar * np.sin(th) + r0 * np.cos(th) * ath))
            # Neglected terms are at most t^3/6 times the third derivative
            third = 2 * abs(ar * ath) + (r0 + abs(ar * t)) * ath**2
            e = np.hypot(*(p[:, :2] - before[:, :2] - v0[:, :2] * t - 0.5 * a * t * t).T)
            m.check(bool((e <= third * abs(t) ** 3 / 6 + tol)[moving].all()), "position", before=before, after=p, t=t, acc=acc)
            e = np.hypot(*(p[:, 3:5] - v0[:, :2] - a * t).T)
            m.check(bool((e <= third * t**2 / 2 + tol)[moving].all()), "velocity", before=before, after=p, t=t, acc=acc)
            # From rest, the speed gained and the distance follow from the radial acceleration alone
            m.close(np.hypot(p[:, 3], p[:, 4])[~moving], np.full((~moving).sum(), abs(ar * t)), "from-rest", atol=tol)
            d = np.hypot(*(p[:, :2] - before[:, :2]).T)[~moving]
            m.close(d, np.full(len(d), 0.5 * abs(ar) * t * t), "from-rest", atol=tol)
            if not tangent:
                m.close(p[:, 5], v0[:, 2] + acc[2] * t, "velocity", atol=tol)
                m.close(p[:, 2], before[:, 2] + v0[:, 2] * t + 0.5 * acc[2] * t * t, "position", atol=tol)
        if tangent:
            m.equal(p[:, 5], before[:, 5], "no-vertical-velocity")
            m.close(offsets(p, dem), offsets(before, dem), "height-above-surface", atol=1e-9 * (abs(dem.c) + 1e4))
    if not (p != p0).any():
        m.trivial()


@workload(quick=800)
def cut_and_reversed(rng, m):
    """Pieces of a time step, its reverse, and other units of time give the same motion."""
    cls = gen.pick(rng, CLASSES)
    n = int(gen.pick(rng, (1, 5, 60)))
    k, dem, _ = kwargs(rng, m, cls, n, random_acceleration=False)
    if "slope_sigma" in k:
        k["slope_sigma"] = 0
    if cls in (CylindricalMotion, TangentCylindricalMotion):
        key = [i for i in k if i.startswith("arth") and not i.endswith("sigma")][0]
        k[key] = np.array(k[key], dtype=float)
        k[key][1] = 0
        k[key][0] = abs(k[key][0])
    m.case(**show(cls, k))
    model = cls(**k)
    p0 = start(rng, m, model, k, cls)
    unit = k["time_unit"]
    steps = [datetime.timedelta(seconds=abs(round(step(rng, unit).total_seconds(), 3))) for _ in range(int(rng.integers(2, 6)))]
    whole, parts = p0.copy(), p0.copy()
    model.evolve_particles(whole, sum(steps, datetime.timedelta(0)))
    for dt in steps:
        model.evolve_particles(parts, dt)
    m.count("steps", len(steps) + 1)
    m.count("particles evolved", n)
    tol = 100 * rounding(whole)
    m.close(parts, whole, "cut", atol=tol, steps=steps)
    for dt in rng.permutation(np.array(steps)):
        model.evolve_particles(parts, -dt)
        m.count("backward steps")
    m.close(parts, p0, "reversed", atol=tol, steps=steps)
    # In another unit
    other = datetime.timedelta(seconds=unit.total_seconds() * float(gen.pick(rng, (0.5, 2, 60, 1 / 60, 24))))
    f = other / unit
    k2 = dict(k, time_unit=other)
    scale = {"v": f, "a": f * f}
    for key in k:
        if key[0] in "va":
            v = np.array(k[key], dtype=float)
            i = [0, 2] if "rth" in key and key[0] == "v" else range(len(v))
            i = [j for j in i if j < len(v)]
            v[i] *= scale[key[0]]
            k2[key] = v
    q = p0.copy()
    q[:, 3:6] *= f
    cls(**k2).evolve_particles(q, sum(steps, datetime.timedelta(0)))
    q[:, 3:6] /= f
    m.close(q, whole, "unit", atol=tol, f=f)
    m.count("unit changes")
    still = p0.copy()
    model.evolve_particles(still, datetime.timedelta(0))
    m.close(still, p0, "no-time", atol=rounding(p0))


@workload(quick=500)
def random_accelerations(rng, m):
    cls = gen.pick(rng, CLASSES[1:])
    n = 3000
    k, dem, _ = kwargs(rng, m, cls, n, random_acceleration=True)
    m.case(**show(cls, k))
    model = cls(**k)
    unit = k["time_unit"]
    tangent = cls in (TangentCartesianMotion, TangentCylindricalMotion)
    cyl = cls in (CylindricalMotion, TangentCylindricalMotion)
    p = start(rng, m, model, k, cls)
    if cyl and not np.hypot(p[:, 3], p[:, 4]).any():
        p[:, 3] = 1.0
    mean, sd = get(k, "a")
    for _ in range(2):
        before = p.copy()
        dt = step(rng, unit, small=cyl)
        t = dt.total_seconds() / unit.total_seconds()
        if abs(t) < 1e-3:
            continue
        model.evolve_particles(p, dt)
        m.count("steps")
        m.count("backward steps", t < 0)
        m.count("particles evolved", n)
        m.must(bool(np.isfinite(p).all()) and p.shape == (n, 6), "finite")
        dv = (p[:, 3:6] - before[:, 3:6]) / t
        dx = p[:, :3] - before[:, :3] - before[:, 3:6] * t
        noise = rounding(before) / min(1, abs(t)) ** 2
        if not cyl:
            d = 2 if tangent else 3
            for i in range(d):
                if sd[i] > 1e4 * noise:
                    moments(m, dv[:, i], mean[i], sd[i], "acceleration")
                elif sd[i] == 0:
                    m.close(dv[:, i], np.full(n, mean[i]), "acceleration-exact", atol=noise)
                m.close(dx[:, i], 0.5 * dv[:, i] * t * t, "same-acceleration", atol=10 * noise)
        else:
            v = before[:, 3] + 1j * before[:, 4]
            r = np.abs(v)
            moving = r > 1e-6
            u = (dv[:, 0] + 1j * dv[:, 1])[moving] * np.conj(v[moving]) / r[moving]
            # To first order in time, components along and across the direction of motion
            big = (np.abs(mean[0]) + 6 * sd[0]) * (abs(mean[1]) + 6 * sd[1]) * 2 + (r.max() + 2 * abs(t)) * (abs(mean[1]) + 6 * sd[1]) ** 2
            if big * abs(t) < 1e-3 * sd[0]:
                moments(m, u.real, mean[0], sd[0], "radial-acceleration")
            dir_ = u.imag / r[moving]
            if sd[1] and sd[1] * r[moving].min() > 1e3 * noise and abs(t) * (abs(mean[0]) + 6 * sd[0]) < 0.02 * r[moving].min():
                se = dir_.std() / n**0.5
                m.check(abs(dir_.mean() - mean[1]) < 6 * se + 0.05 * (abs(mean[1]) + sd[1]), "turning", got=dir_.mean(), want=mean[1])
                m.check(0.85 < dir_.std() / sd[1] < 1.15, "turning-spread", got=dir_.std(), want=sd[1])
            if not tangent and sd[2] > 1e4 * noise:
                moments(m, dv[:, 2], mean[2], sd[2], "acceleration")
        if tangent:
            m.equal(p[:, 5], before[:, 5], "no-vertical-velocity")
            dz = offsets(p, dem) - offsets(before, dem)
            dist = np.hypot(*(p[:, :2] - before[:, :2]).T)
            s = k["slope_sigma"]
            if s == 0:
                m.close(dz, np.zeros(n), "height-above-surface", atol=1e-9 * (abs(dem.c) + 1e4))
            elif dist.min() > 1e-3:
                moments(m, dz / dist / s, 0.0, 1.0, "slope")
    # Particles are not interchangeable copies of one draw
    if np.any(sd[:1] > 0):
        m.check(len(np.unique(p[:, 3].round(12))) > n // 4, "independent-draws")


@workload(quick=1000)
def likelihoods(rng, m):
    cls = gen.pick(rng, CLASSES)
    n = int(rng.integers(1, 50))
    k, dem, sig = kwargs(rng, m, cls, n)
    m.case(**show(cls, k))
    if cls in (CartesianMotion, CylindricalMotion) and isinstance(k.get("dem_sigma"), Raster) and rng.random() < 0.5:
        # Exactly known surface in places
        z = np.array(k["dem_sigma"].array)
        z[:] = 0 if rng.random() < 0.5 else z
        k["dem_sigma"] = Raster(z, x=k["dem_sigma"].xlim, y=k["dem_sigma"].ylim)
        if not z.any():
            sig.a = sig.b = sig.c = 0
    elif cls in (CartesianMotion, CylindricalMotion) and isinstance(k.get("dem_sigma"), float) and rng.random() < 0.3:
        # All but certain
        k["dem_sigma"] = sig.c = float(10 ** rng.uniform(-8, -2))
        m.count("small uncertainties")
    model = cls(**k)
    p = model.initialize_particles()
    p[:, 2] += rng.uniform(-20, 20, n)
    got = m.call(model.compute_log_likelihoods, p)
    m.count("likelihoods")
    if cls not in (CartesianMotion, CylindricalMotion):
        m.check(got is None, "none", got=got)
        return
    if k.get("dem_sigma") is None:
        m.check(got is None, "none", got=got)
        m.count("missing uncertainty values")
        return
    s = sig.at(p[:, :2])
    want = np.zeros(n)
    with np.errstate(all="ignore"):
        want[s > 0] = (offsets(p, dem) ** 2 / (2 * s**2))[s > 0]
    m.close(got, want, "distance-from-surface", rtol=1e-6, atol=1e-6)
