"""Synthetic image sequences of a textured plane moving at a known velocity."""
import datetime
import os

import cv2
import numpy as np

from .refcam import axes

T0 = datetime.datetime(2021, 3, 4, 5, 6, 7)


class Texture:
    """Smooth random pattern with wavelengths of several pixels."""

    def __init__(self, rng, gsd, shortest=4.5, longest=25, waves=40):
        length = gsd * np.exp(rng.uniform(np.log(shortest), np.log(longest), waves))
        angle = rng.uniform(0, 2 * np.pi, waves)
        self.k = 2 * np.pi / length[:, None] * np.column_stack((np.cos(angle), np.sin(angle)))
        self.phase = rng.uniform(0, 2 * np.pi, waves)

    def __call__(self, x, y):
        z = np.zeros(np.shape(x))
        for k, p in zip(self.k, self.phase):
            z += np.cos(k[0] * x + k[1] * y + p)
        z = 128 + 45 * z / np.sqrt(len(self.k) / 2)
        return np.clip(np.round(z), 0, 255).astype(np.uint8)


class Scene:
    """
    A plane at height z that carries its texture at a constant velocity.

    `at(t)` is the position at a time of the point that is at `xy` at time `T0`.
    """

    def __init__(self, rng, xy=(0.0, 0.0), z=0.0, gsd=0.1, velocity=(0.0, 0.0), unit=datetime.timedelta(hours=1), **k):
        self.xy, self.z, self.gsd = np.array(xy, dtype=float), float(z), float(gsd)
        self.v, self.unit = np.array(velocity, dtype=float), unit
        self.texture = Texture(rng, gsd, **k)

    def moved(self, t):
        return self.v * ((t - T0) / self.unit)

    def at(self, t):
        return self.xy + self.moved(t)

    def brightness(self, x, y, t):
        d = self.xy + self.moved(t)
        return self.texture(x - d[0], y - d[1])

    def camera_view(self, size, pitch, yaw, gsd=None, distance=None):
        """Arguments of a camera that looks at `xy`, with pixels of about one gsd across the view."""
        gsd = self.gsd if gsd is None else gsd
        distance = distance or 2000 * gsd
        f = distance / gsd
        _, _, fwd = axes((yaw, pitch, 0))
        xyz = np.array([*self.xy, self.z]) - distance * fwd
        return dict(imgsz=tuple(size), f=(f, f), xyz=tuple(float(v) for v in xyz), viewdir=(float(yaw), float(pitch), 0.0))

    def photograph(self, cam, t):
        """Pixels seen by a camera without distortion."""
        (w, h), (fx, fy) = cam["imgsz"], cam["f"]
        right, down, fwd = axes(cam["viewdir"])
        u, v = np.meshgrid((np.arange(w) + 0.5 - w / 2) / fx, (np.arange(h) + 0.5 - h / 2) / fy)
        d = u[..., None] * right + v[..., None] * down + fwd
        s = (self.z - cam["xyz"][2]) / d[..., 2]
        if (s <= 0).any():
            raise ValueError("camera looks above the horizon")
        return self.brightness(cam["xyz"][0] + s * d[..., 0], cam["xyz"][1] + s * d[..., 1], t)

    def orthophoto(self, size, t, d=None, center=None):
        """Pixels and limits of a north-up map."""
        d = self.gsd if d is None else d
        c = self.xy if center is None else center
        x = (c[0] - d * size[0] / 2, c[0] + d * size[0] / 2)
        y = (c[1] + d * size[1] / 2, c[1] - d * size[1] / 2)
        X, Y = np.meshgrid(x[0] + d * (np.arange(size[0]) + 0.5), y[0] - d * (np.arange(size[1]) + 0.5))
        return self.brightness(X, Y, t), x, y


def save(folder, name, pixels, rgb=False):
    path = os.path.join(folder, name)
    if rgb:
        pixels = np.dstack((pixels,) * 3)
    if not cv2.imwrite(path, pixels):
        raise OSError("could not write " + path)
    return path
