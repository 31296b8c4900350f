"""Random generators shared by the property modules."""
import datetime

import numpy as np

from .refcam import RefCam


def loguniform(rng, lo, hi):
    return float(np.exp(rng.uniform(np.log(lo), np.log(hi))))


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def imgsz(rng, lo=4, hi=4000):
    r = rng.random()
    if r < 0.15:
        n = int(loguniform(rng, lo, hi))
        return (n, n)
    return (int(loguniform(rng, lo, hi)), int(loguniform(rng, lo, hi)))


def viewdir(rng, roll=True):
    r = rng.random()
    if r < 0.15:
        yaw = float(pick(rng, (0, 90, 180, 270, 360, -90, 45)))
        pitch = float(pick(rng, (0, 90, -90, 45, -45)))
        rr = float(pick(rng, (0, 90, 180, -90)))
    elif r < 0.25:
        yaw, pitch, rr = rng.uniform(-1080, 1080, 3)
    else:
        yaw = rng.uniform(-180, 360)
        pitch = rng.uniform(-89, 89)
        rr = rng.uniform(-180, 180)
    return (float(yaw), float(pitch), float(rr) if roll else 0.0)


def position(rng):
    r = rng.random()
    if r < 0.2:
        return (0.0, 0.0, 0.0)
    if r < 0.6:
        return tuple(float(v) for v in rng.uniform(-50, 50, 3))
    return (
        float(rng.uniform(4e5, 6e5)),
        float(rng.uniform(6e6, 7e6)),
        float(rng.uniform(0, 3000)),
    )


def correction(rng):
    r = rng.random()
    if r < 0.5:
        return False
    if r < 0.7:
        return True
    if r < 0.8:
        return {}
    d = {}
    if rng.random() < 0.7:
        d["radius"] = loguniform(rng, 1e3, 1e7)
    if rng.random() < 0.7:
        d["refraction"] = float(rng.uniform(-0.2, 0.5))
    return d


def distortion(rng, scale=1.0, pattern=None):
    """Returns (k, p). scale multiplies the typical magnitudes."""
    k = np.zeros(6)
    p = np.zeros(2)
    if pattern is None:
        pattern = pick(
            rng, ("none", "k1", "k12", "k123", "p", "kp", "k456", "all", "any", "k1p", "k2", "sparse", "sparse", "sparse")
        )
    mag = np.array([0.3, 0.2, 0.1, 0.15, 0.1, 0.05]) * scale
    s = rng.uniform(-1, 1, 6) * mag
    if pattern == "k1":
        k[0] = s[0]
    elif pattern == "k2":
        k[1] = s[1]
    elif pattern == "k12":
        k[:2] = s[:2]
    elif pattern == "k123":
        k[:3] = s[:3]
    elif pattern == "k456":
        k[3:] = s[3:]
    elif pattern in ("kp", "all"):
        k[:] = s
    elif pattern == "k1p":
        k[0] = s[0]
    elif pattern == "any":
        k[:] = s * (rng.random(6) < 0.5)
    elif pattern == "sparse":
        # one to three coefficients, of any kind
        terms = rng.choice(8, int(rng.integers(1, 4)), replace=False)
        k[terms[terms < 6]] = s[terms[terms < 6]]
        p[terms[terms >= 6] - 6] = rng.uniform(-1, 1, 2)[: (terms >= 6).sum()] * 0.02 * scale
    if pattern in ("p", "kp", "all", "k1p", "any"):
        p[:] = rng.uniform(-1, 1, 2) * 0.02 * scale
        if pattern == "any":
            p *= rng.random(2) < 0.5
    return tuple(float(v) for v in k), tuple(float(v) for v in p), pattern


def camera_args(rng, sz=None, distort_scale=1.0, corr=True, pattern=None, pos=None):
    """Keyword arguments of a random camera."""
    sz = sz if sz is not None else imgsz(rng)
    n = max(sz)
    f0 = n * loguniform(rng, 0.6, 8)
    f = (f0, f0) if rng.random() < 0.4 else (f0, f0 * float(rng.uniform(0.8, 1.25)))
    if rng.random() < 0.4:
        c = (0.0, 0.0)
    else:
        c = (float(rng.uniform(-0.1, 0.1) * sz[0]), float(rng.uniform(-0.1, 0.1) * sz[1]))
    k, p, pattern = distortion(rng, distort_scale, pattern)
    return {
        "imgsz": sz,
        "f": f,
        "c": c,
        "k": k,
        "p": p,
        "xyz": pos if pos is not None else position(rng),
        "viewdir": viewdir(rng),
        "correction": correction(rng) if corr else False,
    }


def gentle_camera_args(rng, rho=0.3, **kw):
    """Camera whose distortion the documented iteration inverts accurately."""
    scale = 1.0
    for _ in range(60):
        a = camera_args(rng, distort_scale=scale, **kw)
        if RefCam(**a).strength() < rho:
            return a
        scale *= 0.85
    a = dict(a, k=(0.0,) * 6, p=(0.0, 0.0))
    return a


def points_around(rng, ref, n, spread=1.3, near=0.5, far=5000, behind=0.2):
    """World points around a camera's frame, some outside, some behind."""
    from .refcam import axes

    right, down, fwd = axes(ref.viewdir)
    d = np.exp(rng.uniform(np.log(near), np.log(far), n))
    x = rng.uniform(-0.5, 0.5, n) * spread * ref.imgsz[0] / ref.f[0]
    y = rng.uniform(-0.5, 0.5, n) * spread * ref.imgsz[1] / ref.f[1]
    pts = d[:, None] * (x[:, None] * right + y[:, None] * down + fwd)
    neg = rng.random(n) < behind
    pts[neg] *= -1
    return pts + np.asarray(ref.xyz, dtype=float), pts


def times(rng, n, start=None, lo=1, hi=86400, micro=False):
    t = start or datetime.datetime(2013, 6, 1) + datetime.timedelta(
        seconds=int(rng.integers(0, 10**7))
    )
    out = [t]
    for _ in range(n - 1):
        s = int(loguniform(rng, lo, hi))
        t = t + datetime.timedelta(
            seconds=s, microseconds=int(rng.integers(0, 10**6)) if micro else 0
        )
        out.append(t)
    return out
