"""Synthetic scenes with observers and motion models, for tracking."""
import datetime
import numpy as np
from . import gen, scratch
from .scene import Scene, T0, save
from glimpse import Camera, Image, Observer, Raster
from glimpse.track import CartesianMotion, CylindricalMotion, TangentCartesianMotion, TangentCylindricalMotion

METHODS = ("systematic", "stratified", "residual", "choice")
HOUR = datetime.timedelta(hours=1)


class Setup:
    """A scene, its observers and the times of their images."""

    def __init__(self, rng, m, nobs=None, ntimes=None, moving=True, noise=0.0):
        self.gsd = float(10.0 ** rng.uniform(-1.5, 0.5))
        self.unit = gen.pick(rng, (HOUR, datetime.timedelta(days=1), datetime.timedelta(minutes=10)))
        # Movement per time step in pixels
        speed = float(rng.uniform(0.3, 2.2)) if moving else 0.0
        th = rng.uniform(0, 2 * np.pi)
        self.step = datetime.timedelta(seconds=float(int(self.unit.total_seconds() * rng.uniform(0.3, 3))))
        self.vpix = speed * np.array([np.cos(th), np.sin(th)])
        v = self.vpix * self.gsd / (self.step / self.unit)
        xy = rng.uniform(-50, 50, 2) if rng.random() < 0.5 else rng.uniform(4e5, 6e5, 2)
        self.scene = Scene(rng, xy=xy, z=rng.uniform(-10, 2000), gsd=self.gsd, velocity=v, unit=self.unit)
        self.n = ntimes or int(rng.integers(4, 8))
        jitter = rng.uniform(-0.1, 0.1, self.n) if rng.random() < 0.5 else np.zeros(self.n)
        self.times = [T0 + self.step * (i + float(j)) for i, j in zip(range(self.n), jitter)]
        self.times = [t.replace(microsecond=0) for t in self.times]
        self.v = v
        self.observers = []
        self.seen = []
        nobs = nobs or int(gen.pick(rng, (1, 1, 2, 3)))
        folder = scratch()
        for j in range(nobs):
            self.add(rng, m, folder, j, noise)

    def add(self, rng, m, folder, j, noise):
        size = (int(rng.integers(110, 140)), int(rng.integers(100, 130)))
        keep = np.ones(self.n, dtype=bool)
        if j > 0 or rng.random() < 0.2:
            keep = rng.random(self.n) < 0.75
            while keep.sum() < 3:
                keep[rng.integers(self.n)] = True
            m.count("missing images", (~keep).sum())
        times = [t for t, k in zip(self.times, keep) if k]
        cache = bool(rng.random() < 0.5)
        imgs = []
        if rng.random() < 0.2:
            m.count("map observers")
            for t in times:
                z, x, y = self.scene.orthophoto(size, t, center=self.scene.at(T0) + self.gsd * rng.uniform(-3, 3, 2))
                z = self.noise(rng, z, noise)
                imgs.append(Raster(z.astype(gen.pick(rng, (np.uint8, float))), x=x, y=y, datetime=t))
        else:
            base = self.scene.camera_view(size, pitch=rng.uniform(-90, -40), yaw=rng.uniform(0, 360))
            # Files hold integers; the camera of each image points slightly elsewhere
            rgb = rng.random() < 0.3
            scale = float(gen.pick(rng, (1, 1, 0.5)))
            for i, t in enumerate(times):
                pix = np.rad2deg(1 / base["f"][0])
                cam = dict(base)
                cam["viewdir"] = tuple(np.array(base["viewdir"]) + np.append(rng.uniform(-4, 4, 2) * pix * np.array([1, 1]), rng.uniform(-1, 1)))
                if base["viewdir"][1] < -80:
                    cam["viewdir"] = (base["viewdir"][0], base["viewdir"][1] + rng.uniform(0, 3) * pix, rng.uniform(-1, 1))
                pixels = self.noise(rng, self.scene.photograph(cam, t), noise)
                path = save(folder, f"{j}-{i}.{gen.pick(rng, ('png', 'tif'))}", pixels, rgb)
                imgs.append(Image(path, cam=Camera(**cam), datetime=t))
        self.observers.append(Observer(imgs, sigma=float(rng.uniform(0.2, 0.4)), cache=cache))
        self.seen.append(times)

    @staticmethod
    def noise(rng, z, noise):
        return np.clip(z + rng.normal(size=z.shape) * noise, 0, 255).round().astype(np.uint8) if noise else z

    def model(self, rng, start, n=600, spread=1.0, known=False):
        """A motion model around the true position, uninformed about the velocity unless known."""
        per = self.gsd / (self.step / self.unit)
        p = self.scene.at(start)
        s = self.gsd * 0.25
        z = self.scene.z
        k = dict(xy=p, time_unit=self.unit, n=n, xy_sigma=(s, s))
        mean = self.v if known else self.v + per * rng.uniform(-0.5, 0.5, 2)
        a = 0.03 * per / (self.step / self.unit)
        kind = gen.pick(rng, (CartesianMotion, TangentCartesianMotion, CylindricalMotion, TangentCylindricalMotion))
        dem = z if rng.random() < 0.5 else Raster(np.full((4, 5), z), x=p[0] + np.array([-1, 1]) * 500 * self.gsd, y=p[1] + np.array([1, -1]) * 500 * self.gsd)
        k["dem"] = dem
        k["dem_sigma"] = 0 if kind in (TangentCartesianMotion, TangentCylindricalMotion) else gen.pick(rng, (0, None, 0.05 * self.gsd))
        sv = spread * per
        if kind is CartesianMotion:
            k.update(vxyz=(*mean, 0), vxyz_sigma=(sv, sv, 0.0), axyz_sigma=(a, a, 0))
        elif kind is TangentCartesianMotion:
            k.update(vxy=mean, vxy_sigma=(sv, sv), axy_sigma=(a, a))
        else:
            r, th = np.hypot(*mean), np.arctan2(mean[1], mean[0])
            r = max(r, 0.5 * per)
            e = (r, th), (sv, min(1.0, sv / r)), (a, 0.01)
            if kind is TangentCylindricalMotion:
                k.update(vrth=e[0], vrth_sigma=e[1], arth_sigma=e[2])
            else:
                k.update(vrthz=(*e[0], 0), vrthz_sigma=(*e[1], 0), arthz_sigma=(*e[2], 0))
        m = kind(**k)
        return m

    def images_at(self, times, maxdt=datetime.timedelta(0), mask=None):
        """Whether any observer has an image at each time."""
        return np.array([
            any(abs(t - s) <= maxdt for j, seen in enumerate(self.seen) if mask is None or mask[j] for s in seen) for t in times
        ])
