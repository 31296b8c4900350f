from fractions import Fraction as F
import numpy as np
from gmon import META, workload, gen
from glimpse import helpers

META["rule"] = (
    "A case is a random geometric configuration: rays from a common origin (inside, outside, on sides, edges and "
    "corners; axis-parallel, grazing) and a box in 2 or 3 dimensions; polylines with vertices in, out and on a box; "
    "cells to join by lines; circles; polylines with distance measures running either way; masks; box grids. The "
    "oracle intersects slabs in exact rational arithmetic and walks polylines edge by edge. Non-trivial if the case "
    "has at least one hit, one clipped edge, or more than one point."
)
META["require"] = {
    "rays hitting": 3000, "rays missing": 3000, "rays along sides": 100, "three dimensions": 200, "edges clipped": 500,
    "vertices on the boundary": 200, "cells of lines": 5000, "circles": 50, "interpolated points": 5000, "decreasing measures": 100,
    "groups": 1000, "grid points": 3000,
}
META["assumptions"] = [
    "rays and edges passing within 1e-9 of a corner (relative to the box), or touching the box only at their origin, are not judged",
    "edges between two vertices outside the box are not clipped (documented)",
    "clip, interpolate and split inputs are arrays, as documented",
]


def _slabs(o, d, lo, hi):
    """Exact interval of multiples of d inside the box, or (1, 0) if none; along: on a side."""
    t0, t1 = None, None
    along = False
    gap = None
    for a, b, l, h in zip(o, d, lo, hi):
        a, b, l, h = F(a), F(b), F(l), F(h)
        if b == 0:
            if a < l or a > h:
                return None, None, along
            along |= a == l or a == h
            continue
        u, v = sorted(((l - a) / b, (h - a) / b))
        t0 = u if t0 is None else max(t0, u)
        t1 = v if t1 is None else min(t1, v)
    if t0 is None:
        return None, None, along
    return t0, t1, along


def _distinct(P):
    """Without vertices repeated to within rounding error."""
    return P[np.insert(np.abs(np.diff(P, axis=0)).max(axis=1) > 1e-9, 0, True)]


def _coord(rng, lattice):
    return float(rng.integers(-4, 5)) if lattice else float(rng.uniform(-4, 4))


@workload(quick=900, thorough=15000)
def rays(rng, m):
    nd = int(gen.pick(rng, (2, 2, 3)))
    lattice = rng.random() < 0.6
    lo = np.array([_coord(rng, lattice) for _ in range(nd)])
    hi = lo + (rng.integers(1, 5, nd) if lattice else rng.uniform(0.1, 5, nd))
    if rng.random() < 0.2:
        s = 1e5
        lo, hi = lo + s, hi + s
    r = rng.random()
    o = np.array([_coord(rng, lattice) for _ in range(nd)]) * 2 + (lo - lo % 1e5 if lo.max() > 1e4 else 0)
    if r < 0.25:
        o = lo + (hi - lo) * rng.uniform(0.05, 0.95, nd)
    elif r < 0.5:
        # on a side, edge or corner
        o = lo + (hi - lo) * rng.choice([0, 0.5, 1], nd)
    n = int(rng.integers(1, 25))
    if lattice:
        D = rng.integers(-4, 5, (n, nd)).astype(float)
        D[(D == 0).all(axis=1)] = 1
    else:
        D = rng.normal(size=(n, nd)) * gen.loguniform(rng, 0.01, 100)
        D[rng.random((n, nd)) < 0.15] = 0
        D[(D == 0).all(axis=1), 0] = 1
        aim = rng.random(n) < 0.5
        target = lo + (hi - lo) * rng.uniform(0, 1, (n, nd))
        D[aim] = (target - o)[aim] * rng.uniform(0.2, 3, (n, 1))[aim]
    D[rng.random((n, nd)) < 0.05] *= -1
    ints = lattice and rng.random() < 0.2 and lo.max() < 1e4
    box = np.hstack((lo, hi))
    m.case(origin=o, directions=D, box=box)
    m.count("three dimensions", nd == 3)
    o_ = gen.pick(rng, (tuple, list, np.array))(o)
    box_ = gen.pick(rng, (tuple, list, np.array))(box)
    D_ = D.astype(int) if ints else D
    T = m.call(helpers.intersect_rays_box, o_, D_, box_, t=True)
    A = m.call(helpers.intersect_rays_box, o_, D_, box_)
    m.must(len(T) == 2 and np.shape(T[0]) == (n, 1) and np.shape(A[0]) == (n, nd), "shapes", got=[np.shape(v) for v in (*T, *A)])
    hits = 0
    for k in range(n):
        if not D[k].any():
            continue
        t0, t1, along = _slabs(o, D[k], lo, hi)
        tin, tout = float(T[0][k, 0]), float(T[1][k, 0])
        rayinfo = dict(origin=o, direction=D[k], box=box)
        if t0 is None or t1 < t0 or t1 < 0:
            gap = np.inf if t0 is None else float(max(t0 - t1, -t1)) / (1 + abs(float(t0)))
            if gap > 1e-9:
                m.check(np.isnan(tin) and np.isnan(tout), "miss-reported-as-miss", got=(tin, tout), **rayinfo)
                m.check(np.isnan(A[0][k]).all() and np.isnan(A[1][k]).all(), "miss-has-no-points", got=(A[0][k], A[1][k]), **rayinfo)
                m.count("rays missing")
            continue
        f0, f1 = float(t0), float(t1)
        if f1 - max(f0, 0) < 1e-9 * (1 + abs(f0)):
            # touches a corner, or its own origin
            continue
        hits += 1
        m.count("rays hitting")
        m.count("rays along sides", along)
        tol = 1e-9 * (1 + abs(f1)) + 4e-15 * np.abs(box).max() / np.abs(D[k][D[k] != 0]).min()
        m.close(tout, f1, "exit", rtol=1e-9, atol=tol, **rayinfo)
        m.close(A[1][k], o + f1 * D[k], "exit-point", rtol=1e-9, atol=1e-8 * (1 + np.abs(D[k]).max() * tol * 1e9), **rayinfo)
        if f0 > tol:
            m.close(tin, f0, "entrance", rtol=1e-9, atol=tol, **rayinfo)
            m.close(A[0][k], o + f0 * D[k], "entrance-point", rtol=1e-9, atol=1e-8 * (1 + np.abs(D[k]).max() * tol * 1e9), **rayinfo)
        elif f0 < -tol:
            m.check(np.isnan(tin), "no-entrance-from-inside", got=tin, **rayinfo)
        else:
            m.check(np.isnan(tin) or abs(tin) <= tol, "entrance-at-origin", got=tin, **rayinfo)
    if not hits:
        m.trivial()


@workload(quick=900, thorough=15000)
def clipping(rng, m):
    nd = int(gen.pick(rng, (2, 2, 2, 3)))
    lattice = rng.random() < 0.6
    lo = np.array([_coord(rng, lattice) for _ in range(nd)])
    hi = lo + (rng.integers(1, 5, nd) if lattice else rng.uniform(0.5, 5, nd))
    n = int(rng.integers(1, 15))
    P = np.array([[_coord(rng, lattice) * 1.5 for _ in range(nd)] for _ in range(n)])
    if lattice:
        P = np.round(P)
    b = rng.random(n)
    P[b < 0.2] = (lo + (hi - lo) * rng.choice([0, 0.5, 1], (n, nd)))[b < 0.2]
    inn = (b > 0.2) & (b < 0.5)
    P[inn] = (lo + (hi - lo) * rng.uniform(0, 1, (n, nd)))[inn]
    # no repeated vertices
    P = P[np.insert(np.any(np.diff(P, axis=0) != 0, axis=1), 0, True)]
    n = len(P)
    measure = rng.random() < 0.4
    L = P if not measure else np.column_stack((P, np.cumsum(rng.uniform(0.1, 3, n))))
    box = np.hstack((lo, hi))
    m.case(line=L, box=box, measure=measure)
    box_ = gen.pick(rng, (tuple, list, np.array))(box)
    inside = ((P >= lo) & (P <= hi)).all(axis=1)
    m.equal(np.asarray(m.call(helpers.in_box, P, box_)), inside, "in-box-inclusive")
    onb = inside & ((P == lo) | (P == hi)).any(axis=1)
    m.count("vertices on the boundary", onb.sum())
    # expected segments
    segs, sure = [], []
    k = 0
    while k < n:
        if not inside[k]:
            k += 1
            continue
        e = k
        while e + 1 < n and inside[e + 1]:
            e += 1
        s, ok = [], True
        for out, v, first in ((k - 1, k, True), (e + 1, e, False)):
            p = []
            if 0 <= out < n:
                a, c = (out, v) if first else (v, out)
                t0, t1, _ = _slabs(P[a], P[c] - P[a], lo, hi)
                # edge runs along or through the box between t0 and t1
                t = None
                if t0 is None:
                    ok = False
                else:
                    u = float(t0) if first else float(t1)
                    if 1e-9 < u < 1 - 1e-9:
                        t = u
                    elif not (u <= 0 or u >= 1):
                        ok = False
                if t is not None:
                    p = [L[a] + t * (L[c] - L[a])]
                    m.count("edges clipped")
            s.append(p)
        segs.append(s[0] + [L[q] for q in range(k, e + 1)] + s[1])
        sure.append(ok)
        k = e + 1
    args = {"t": True} if measure else {}
    out = m.call(helpers.clip_polyline_box, L, box_, **args)
    m.must(len(out) == len(segs), "number-of-segments", got=len(out), expected=len(segs))
    for g, s, ok in zip(out, segs, sure):
        if ok:
            m.close(_distinct(np.asarray(g)), _distinct(np.array(s)), "segment", rtol=1e-9, atol=1e-9)
        m.check((np.asarray(g)[:, :nd] >= lo - 1e-9) & (np.asarray(g)[:, :nd] <= hi + 1e-9), "segment-inside-box", segment=g)
    if not segs:
        m.trivial()
    # single edges
    for _ in range(3):
        if n < 2:
            break
        a = int(rng.integers(n - 1))
        d = P[a + 1] - P[a]
        t0, t1, _ = _slabs(P[a], d, lo, hi)
        t = m.call(helpers.intersect_edge_box, gen.pick(rng, (tuple, np.array))(P[a]), gen.pick(rng, (tuple, np.array))(d), box_)
        if t0 is None or t1 < t0:
            if t0 is None or float(t0 - t1) > 1e-9:
                m.check(t is None, "edge-misses", got=t, origin=P[a], distance=d)
            continue
        c = [float(v) for v in (t0, t1)]
        if any(abs(v) < 1e-9 and v != 0 or abs(v - 1) < 1e-9 and v != 1 for v in c) or c[1] - c[0] < 1e-9:
            continue
        c = [v for v in c if 0 < v < 1]
        if c:
            m.check(t is not None and abs(float(np.squeeze(t)) - min(c)) < 1e-9, "edge-meets-box", got=t, expected=min(c), origin=P[a], distance=d)
        else:
            m.check(t is None or min(abs(float(np.squeeze(t))), abs(1 - float(np.squeeze(t)))) < 1e-9, "edge-ends-short-of-box", got=t, origin=P[a], distance=d)


@workload(quick=500, thorough=10000)
def lines(rng, m):
    R = int(gen.pick(rng, (3, 10, 60)))
    a, b = rng.integers(-R, R + 1, 2), rng.integers(-R, R + 1, 2)
    if rng.random() < 0.2:
        b[int(rng.integers(2))] = a[int(rng.integers(2))]
    if rng.random() < 0.1:
        b = a.copy()
    m.case(start=a, end=b)
    form = gen.pick(rng, (tuple, list, np.array))
    P = np.asarray(m.call(helpers.bresenham_line, form([int(v) for v in a]), form([int(v) for v in b])))
    m.count("cells of lines", len(P))
    m.must(P.ndim == 2 and P.shape[1] == 2 and P.dtype.kind in "iu", "line-shape", got=P.shape)
    m.equal(P[0], a, "starts-at-start")
    m.equal(P[-1], b, "ends-at-end")
    N = np.abs(b - a).max()
    m.equal(len(P), int(N) + 1, "one-cell-per-step")
    if N:
        k = int(np.argmax(np.abs(b - a)))
        st = np.diff(P, axis=0)
        m.check((st[:, k] == np.sign(b - a)[k]).all() and (np.abs(st[:, 1 - k]) <= 1).all(), "connected", got=P)
        off = P[:, 1 - k] - (a[1 - k] + (P[:, k] - a[k]) * (b - a)[1 - k] / (b - a)[k])
        m.check(np.abs(off) <= 0.5 + 1e-9, "cells-nearest-the-line", off=np.abs(off).max(), got=P)
    Q = np.asarray(helpers.bresenham_line(tuple(int(v) for v in b), tuple(int(v) for v in a)))
    m.check(np.abs(Q[::-1] - P).max() <= 1, "reverse-is-the-same-line")


@workload(quick=120, thorough=1500)
def circles(rng, m):
    r = int(rng.integers(0, 120)) if rng.random() < 0.5 else int(rng.integers(0, 12))
    c = rng.integers(-50, 50, 2)
    m.case(center=c, radius=r)
    m.count("circles")
    P = np.asarray(m.call(helpers.bresenham_circle, gen.pick(rng, (tuple, list, np.array))(c), r if rng.random() < 0.5 else float(r)))
    m.must(P.ndim == 2 and P.shape[1] == 2 and np.isfinite(P).all(), "circle-shape", got=P.shape)
    m.equal(P, np.round(P), "whole-cells")
    d = np.hypot(*(P - c).T)
    m.check(np.abs(d - r) <= 0.5 + 1e-9, "on-the-circle", got=(d - r))
    S = set(map(tuple, (P - c).astype(int).tolist()))
    for f in (lambda x, y: (-x, y), lambda x, y: (x, -y), lambda x, y: (y, x)):
        m.equal({f(x, y) for x, y in S}, S, "symmetric")
    if r > 0:
        st = np.diff(P, axis=0)
        m.check((np.abs(st).max(axis=1) == 1), "circle-connected", got=st)
        m.check(np.abs(P[0] - P[-1]).max() <= 1, "circle-closed", first=P[0], last=P[-1])
        # goes round exactly once
        a = np.unwrap(np.arctan2(*(np.vstack((P, P[:1])) - c).T[::-1]))
        m.close(abs(a[-1] - a[0]), 2 * np.pi, "once-around", atol=1e-6)
        # every heading is covered
        m.check(len(S) >= 4 * r, "complete", got=len(S))


@workload(quick=700, thorough=12000)
def interpolation(rng, m):
    n, nd = int(rng.integers(2, 12)), int(rng.integers(1, 4))
    V = rng.normal(size=(n, nd)) * gen.loguniform(rng, 0.1, 1000)
    if rng.random() < 0.2:
        V = rng.integers(-9, 10, (n, nd)).astype(gen.pick(rng, (int, float)))
        V = V[np.insert(np.any(np.diff(V, axis=0) != 0, axis=1), 0, True)]
        n = len(V)
        if n < 2:
            return m.trivial()
    own = rng.random() < 0.5
    seg = np.sqrt((np.diff(V.astype(float), axis=0) ** 2).sum(axis=1))
    x = np.append(0, np.cumsum(seg))
    kw = {}
    if own:
        x = np.cumsum(rng.uniform(0.1, 5, n)) + float(rng.normal() * 10)
        if rng.random() < 0.5:
            x = x[::-1].copy()
            m.count("decreasing measures")
        kw["x"] = gen.pick(rng, (np.asarray, list, tuple))(x)
    mode = gen.pick(rng, ("xi", "xi", "xi", "n", "dx"))

    def at(q, left, right):
        out = np.empty((len(q), nd))
        s = 1 if x[-1] > x[0] else -1
        for i, v in enumerate(q):
            if s * v < s * x[0]:
                out[i] = left
            elif s * v > s * x[-1]:
                out[i] = right
            else:
                k = min(max(int(np.searchsorted(s * x, s * v, side="right")) - 1, 0), n - 2)
                t = (v - x[k]) / (x[k + 1] - x[k])
                out[i] = V[k] + t * (V[k + 1].astype(float) - V[k])
        return out

    sc = np.abs(V).max() + 1
    m.case(vertices=V, mode=mode, **kw)
    if mode == "xi":
        q = rng.uniform(min(x), max(x), int(rng.integers(1, 20)))
        pick = rng.random(len(q)) < 0.3
        q[pick] = rng.choice(x, pick.sum())
        beyond = rng.random() < 0.4
        if beyond:
            k = rng.random(len(q)) < 0.5
            k[0] = True
            q[k] = np.where(rng.random(k.sum()) < 0.5, min(x) - 1, max(x) + rng.uniform(0.1, 3))
        xi = gen.pick(rng, (np.asarray, list, tuple))(q)
        fill = gen.pick(rng, ("default", "endpoints", "nan", "scalar", "pair", "vertices", "array"))
        left, right = V[0], V[-1]
        if fill == "nan":
            kw["fill"] = np.nan
            left = right = np.nan
        elif fill == "scalar":
            kw["fill"] = left = right = float(rng.normal())
        elif fill == "pair":
            kw["fill"] = (-1.0, 99.0)
            left, right = kw["fill"]
        elif fill == "vertices":
            left, right = rng.normal(size=(2, nd))
            kw["fill"] = (left, right)
        elif fill == "array":
            kw["fill"] = rng.normal(size=(2, nd))
            left, right = kw["fill"]
        elif fill == "endpoints":
            kw["fill"] = "endpoints"
        if beyond and rng.random() < 0.3:
            m.raises(ValueError, lambda: helpers.interpolate_line(V, xi=xi, **kw), "beyond-ends-raises", xi=xi)
            return
        if beyond or rng.random() < 0.3:
            kw["error"] = False
        out = m.call(helpers.interpolate_line, V, xi=xi, **kw)
        m.close(out, at(q, left, right), "points-on-the-line", rtol=1e-9, atol=1e-9 * sc)
        m.count("interpolated points", len(q))
        return
    if mode == "n":
        k = int(rng.integers(1, 20))
        out = np.asarray(m.call(helpers.interpolate_line, V, n=k, **kw))
        m.must(out.shape == (k, nd), "n-points", got=out.shape)
        q = np.linspace(x[0], x[-1], k)
    else:
        k = int(rng.integers(1, 20))
        L = abs(x[-1] - x[0])
        dx = L / k
        if rng.random() < 0.4 and not own:
            # whole steps whose sum is rounded
            st = float(gen.pick(rng, (0.1, 0.3, 1 / 3, 0.7, 1.0)))
            k = int(rng.integers(1, 12))
            V = np.zeros((k + 1, 2))
            V[:, 0] = st * np.arange(k + 1)
            n, nd, dx = k + 1, 2, st
            x = np.append(0, np.cumsum(np.abs(np.diff(V[:, 0]))))
        elif rng.random() < 0.3:
            dx = L / float(rng.uniform(2, 20))
            k = None
        out = np.asarray(m.call(helpers.interpolate_line, V, dx=dx, **kw))
        m.must(out.ndim == 2 and out.shape[1] == nd and len(out) > 1, "dx-points", got=out.shape, dx=dx)
        if k is not None:
            m.equal(len(out), k + 1, "whole-steps-of-dx", vertices=V, dx=dx)
        q = np.linspace(x[0], x[-1], len(out))
    m.close(out, at(q, V[0], V[-1]), "evenly-spaced", rtol=1e-9, atol=1e-9 * sc)
    m.count("interpolated points", len(q))


@workload(quick=600, thorough=10000)
def splitting(rng, m):
    n = int(rng.integers(1, 15))
    mask = rng.random(n) < rng.random()
    axis = int(rng.integers(2))
    shape = [n, int(rng.integers(1, 4))]
    if axis == 1:
        shape = shape[::-1]
    one = rng.random() < 0.5
    a = rng.integers(0, 100, n) if one else rng.integers(0, 100, shape)
    axis = 0 if one else axis
    circular = bool(rng.random() < 0.5)
    include = gen.pick(rng, ("all", "true", "false"))
    m.case(mask=mask, shape=np.shape(a), axis=axis, circular=circular, include=include)
    groups, start = [], 0
    for k in range(1, n + 1):
        if k == n or mask[k] != mask[start]:
            groups.append(list(range(start, k)))
            start = k
    if circular and len(groups) > 1 and mask[0] == mask[-1]:
        groups[0] = groups.pop(-1) + groups[0]
    m.count("groups", len(groups))
    if include != "all":
        groups = [g for g in groups if mask[g[0]] == (include == "true")]
    out = m.call(helpers.boolean_split, a, mask, axis=axis, circular=circular, include=include)
    m.must(len(out) == len(groups), "number-of-groups", got=len(out), expected=groups)
    for g, e in zip(out, groups):
        m.equal(np.asarray(g), np.take(a, e, axis=axis), "group")


@workload(quick=500, thorough=8000)
def boxes(rng, m):
    nd = int(rng.integers(1, 4))
    k = int(rng.integers(1, 5))
    lo = rng.uniform(-5, 5, (k, nd))
    hi = lo + rng.uniform(0.5, 10, (k, nd))
    if rng.random() < 0.3:
        lo, hi = np.round(lo), np.round(hi) + 1
    B = np.hstack((lo, hi))
    m.case(boxes=B)
    a, b = lo.max(axis=0), hi.min(axis=0)
    form = gen.pick(rng, (np.asarray, lambda v: [tuple(q) for q in v.tolist()]))
    if (b > a).all():
        m.close(m.call(helpers.intersect_boxes, form(B)), np.hstack((a, b)), "intersection-of-boxes", rtol=0, atol=0)
    elif (b < a).any():
        m.raises(ValueError, lambda: helpers.intersect_boxes(form(B)), "disjoint-boxes-raise")
    m.close(helpers.unravel_box(tuple(B[0])), np.vstack((lo[0], hi[0])), "unravel", rtol=0, atol=0)
    m.raises(ValueError, lambda: helpers.unravel_box(B[0][:-1]), "odd-box-raises")
    pts = rng.normal(size=(int(rng.integers(1, 20)), nd))
    m.close(m.call(helpers.bounding_box, form(pts)), np.hstack((pts.min(axis=0), pts.max(axis=0))), "bounding-box", rtol=0, atol=0)
    if nd == 2:
        p = np.asarray(m.call(helpers.box_to_polygon, form(B)[0]))
        m.must(p.shape == (5, 2), "polygon-shape")
        m.equal(p[0], p[-1], "polygon-closed")
        m.equal({tuple(v) for v in p}, {(x, y) for x in (lo[0, 0], hi[0, 0]) for y in (lo[0, 1], hi[0, 1])}, "polygon-corners")
        m.check((np.diff(p, axis=0) == 0).sum(axis=1) == 1, "polygon-along-sides", got=p)
    # grids
    step = rng.uniform(0.2, 3, nd)
    if rng.random() < 0.5:
        step[:] = step[0]
    snap = None if rng.random() < 0.4 else rng.uniform(-10, 10, nd)
    L, H = lo[0], hi[0]
    axes = []
    sure = True
    for j in range(nd):
        s = L[j] if snap is None else snap[j]
        q = (np.array([L[j], H[j]]) - s) / step[j]
        near = np.abs(q - np.round(q)) < 1e-6
        if snap is None:
            near[0] = False
        sure &= not near.any()
        axes.append(s + step[j] * np.arange(np.ceil(q[0] - (1e-9 if snap is None else 0)), np.floor(q[1]) + 1))
    st = float(step[0]) if (step == step[0]).all() and rng.random() < 0.5 else gen.pick(rng, (tuple, list, np.array))(step)
    kw = {} if snap is None else {"snap": gen.pick(rng, (tuple, np.array))(snap)}
    if not sure:
        return
    box = form(B)[0]
    V = m.call(helpers.box_to_grid, box, st, mode="vectors", **kw)
    m.must(len(V) == nd, "one-vector-per-dimension")
    for j in range(nd):
        m.close(V[j], axes[j], "grid-vectors", rtol=1e-9, atol=1e-9)
    if nd < 2 or any(len(v) == 0 for v in axes):
        return
    P = np.asarray(m.call(helpers.box_to_grid, box, st, mode="points", **kw))
    G = m.call(helpers.box_to_grid, box, st, **kw)
    E = np.meshgrid(*axes)
    m.count("grid points", len(P))
    m.must(len(G) == nd and all(np.shape(g) == e.shape for g, e in zip(G, E)), "grids-shape", got=[np.shape(g) for g in G])
    for g, e in zip(G, E):
        m.close(g, e, "grids", rtol=1e-9, atol=1e-9)
    m.close(P, np.column_stack([e.ravel() for e in E]), "grid-points", rtol=1e-9, atol=1e-9)
    m.close(m.call(helpers.grid_to_points, tuple(E)), np.column_stack([e.ravel() for e in E]), "grid-to-points", rtol=0, atol=0)
    m.raises(ValueError, lambda: helpers.box_to_grid(box, st, mode="nonsense"), "unknown-mode-raises")
