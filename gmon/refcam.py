"""Independent reference camera model, written from the documentation."""
import math

import numpy as np


def axes(viewdir):
    """Camera axes (right, down, forward) as world unit vectors.

    yaw: clockwise from north seen from above; pitch: up from the horizon;
    roll: about the optical axis (+ down right, i.e. the camera's right side drops).
    """
    yaw, pitch, roll = [math.radians(float(a)) for a in viewdir]
    fwd = np.array(
        [
            math.cos(pitch) * math.sin(yaw),
            math.cos(pitch) * math.cos(yaw),
            math.sin(pitch),
        ]
    )
    right0 = np.array([math.cos(yaw), -math.sin(yaw), 0.0])
    up0 = np.cross(right0, fwd)
    right = right0 * math.cos(roll) - up0 * math.sin(roll)
    up = right0 * math.sin(roll) + up0 * math.cos(roll)
    return right, -up, fwd


class RefCam:
    def __init__(
        self, imgsz, f, c=(0, 0), k=(0,) * 6, p=(0, 0), xyz=(0, 0, 0),
        viewdir=(0, 0, 0), correction=None, **_
    ):
        k = list(k) + [0] * (6 - len(k))
        self.imgsz, self.f, self.c = imgsz, f, c
        self.k, self.p, self.xyz, self.viewdir = k, p, xyz, viewdir
        self.correction = correction

    @classmethod
    def of(cls, cam):
        """From the public attributes of a camera."""
        return cls(
            imgsz=[int(i) for i in cam.imgsz],
            f=[float(i) for i in cam.f],
            c=[float(i) for i in cam.c],
            k=[float(i) for i in cam.k],
            p=[float(i) for i in cam.p],
            xyz=[float(i) for i in cam.xyz],
            viewdir=[float(i) for i in cam.viewdir],
            correction=cam.correction if isinstance(cam.correction, dict) else None,
        )

    def distort_xy(self, x, y):
        """OpenCV-style distortion of normalized camera coordinates."""
        k1, k2, k3, k4, k5, k6 = self.k
        p1, p2 = self.p
        r2 = x * x + y * y
        dr = (1 + k1 * r2 + k2 * r2**2 + k3 * r2**3) / (
            1 + k4 * r2 + k5 * r2**2 + k6 * r2**3
        )
        xd = x * dr + 2 * p1 * x * y + p2 * (r2 + 2 * x * x)
        yd = y * dr + p1 * (r2 + 2 * y * y) + 2 * p2 * x * y
        return xd, yd

    def project(self, pts, directions=False):
        """Returns (uv, depth), NaN where depth <= 0."""
        right, down, fwd = axes(self.viewdir)
        out = np.full((len(pts), 2), np.nan)
        depth = np.full(len(pts), np.nan)
        for i, q in enumerate(np.asarray(pts, dtype=float)):
            d = q.copy()
            if not directions:
                d = d - np.asarray(self.xyz, dtype=float)
                if self.correction:
                    s2 = d[0] ** 2 + d[1] ** 2
                    d[2] -= (
                        (1 - self.correction["refraction"])
                        * s2
                        / (2 * self.correction["radius"])
                    )
            z = float(d @ fwd)
            depth[i] = z
            if z <= 0 or not np.isfinite(z):
                continue
            x, y = float(d @ right) / z, float(d @ down) / z
            xd, yd = self.distort_xy(x, y)
            out[i] = (
                xd * self.f[0] + self.imgsz[0] / 2 + self.c[0],
                yd * self.f[1] + self.imgsz[1] / 2 + self.c[1],
            )
        return out, depth

    def xyd_of_uv(self, uv):
        uv = np.asarray(uv, dtype=float)
        return np.column_stack(
            (
                (uv[:, 0] - self.imgsz[0] / 2 - self.c[0]) / self.f[0],
                (uv[:, 1] - self.imgsz[1] / 2 - self.c[1]) / self.f[1],
            )
        )

    def undistort(self, xyd, iters=200):
        """Newton iterations with a numeric Jacobian."""
        out = np.array(xyd, dtype=float)
        x, y = out[:, 0].copy(), out[:, 1].copy()
        h = 1e-7
        for _ in range(iters):
            fx, fy = self.distort_xy(x, y)
            ex, ey = fx - xyd[:, 0], fy - xyd[:, 1]
            if max(np.abs(ex).max(), np.abs(ey).max()) < 1e-15:
                break
            ax, ay = self.distort_xy(x + h, y)
            bx, by = self.distort_xy(x, y + h)
            j11, j21 = (ax - fx) / h, (ay - fy) / h
            j12, j22 = (bx - fx) / h, (by - fy) / h
            det = j11 * j22 - j12 * j21
            x = x - (j22 * ex - j12 * ey) / det
            y = y - (-j21 * ex + j11 * ey) / det
        return np.column_stack((x, y))

    def strength(self, margin=1.05):
        """Largest relative displacement and contraction factor over the frame.

        Returns rho, the largest Lipschitz estimate of u -> (d - t(u)) / r(u) over
        the undistorted frame (inf if the distortion folds).
        """
        n = 9
        u = np.linspace(-margin / 2, margin / 2, n) * self.imgsz[0]
        v = np.linspace(-margin / 2, margin / 2, n) * self.imgsz[1]
        U, V = np.meshgrid(u, v)
        xy = np.column_stack(
            ((U.ravel() - self.c[0]) / self.f[0], (V.ravel() - self.c[1]) / self.f[1])
        )
        xy = np.vstack((xy, xy * 1.25))
        x, y = xy.T
        h = 1e-6
        fx, fy = self.distort_xy(x, y)
        ax, ay = self.distort_xy(x + h, y)
        bx, by = self.distort_xy(x, y + h)
        J = np.stack(
            (
                np.stack(((ax - fx) / h, (bx - fx) / h), -1),
                np.stack(((ay - fy) / h, (by - fy) / h), -1),
            ),
            -2,
        )
        r2 = x * x + y * y
        k1, k2, k3, k4, k5, k6 = self.k
        den = 1 + k4 * r2 + k5 * r2**2 + k6 * r2**3
        dr = (1 + k1 * r2 + k2 * r2**2 + k3 * r2**3) / den
        if (den <= 0.2).any() or (dr <= 0.2).any():
            return np.inf
        # d(u) = F(u); fixed point map u' = (d - t(u)) / r(u): derivative at the
        # solution is I - J / r
        M = np.eye(2)[None] - J / dr[:, None, None]
        return float(np.max(np.linalg.norm(M, ord=2, axis=(1, 2))))
