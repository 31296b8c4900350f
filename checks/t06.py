import datetime
import os
import warnings
import numpy as np
import matplotlib.animation
import matplotlib.dates
import matplotlib.pyplot as plt
from gmon import META, workload, gen, scratch, tracking
from gmon.movie import Recorder
from glimpse import Raster, Tracker, Tracks

META["rule"] = (
    "A case is a set of tracks with random states, gaps, errors and warnings, recorded as arrays or one by one, with spreads or "
    "covariances, or the result of tracking a synthetic scene. The oracles are selections of the recorded arrays, weighted statistics of the "
    "recorded particles, and the data held by the drawn artists. Non-trivial if there is a valid state."
)
META["require"] = {
    "sets": 500, "tracks": 2000, "gaps": 1000, "selections": 1000, "covariances": 150, "notes": 400, "recorded states": 700,
    "weighted states": 600, "plots": 300, "animations": 12, "animation frames": 30, "late starts": 100,
}
META["assumptions"] = ["plotted data are those held by the artists that matplotlib returns"]
T0 = datetime.datetime(2021, 6, 7, 8, 9, 10)


def select(rng, n):
    """An index of tracks and the positions it selects."""
    kind = gen.pick(rng, ("all", "slice", "list", "array", "mask", "reverse", "negative"))
    if kind == "all":
        return None, list(range(n))
    if kind == "slice":
        a, b = sorted(int(v) for v in rng.integers(0, n + 1, 2))
        s = slice(a, b, int(rng.integers(1, 3)))
        return s, list(range(n))[s]
    if kind == "mask":
        mask = rng.random(n) < 0.5
        return mask, np.nonzero(mask)[0].tolist()
    if kind == "reverse":
        return slice(None, None, -1), list(range(n))[::-1]
    idx = [int(v) for v in rng.integers(0, n, int(rng.integers(1, n + 2)))]
    if kind == "negative":
        return [i - n for i in idx], idx
    return (idx if kind == "list" else np.array(idx)), idx


def states(rng, n, t, p=None):
    """Random means, factors of covariances, and which are valid."""
    means = rng.normal(size=(n, t, 6)) * np.array([100, 100, 10, 3, 3, 1]) + np.array([5e5, -4e5, 900, 0, 0, 0])
    A = rng.normal(size=(n, t, 6, 6))
    cov = A @ A.transpose(0, 1, 3, 2)
    valid = np.ones((n, t), dtype=bool)
    for i in range(n):
        kind = gen.pick(rng, ("full", "span", "span", "gaps", "empty", "end", "start"))
        if kind == "span":
            a, b = sorted(int(v) for v in rng.integers(0, t, 2))
            valid[i] = False
            valid[i, a : b + 1] = True
        elif kind == "gaps":
            valid[i] = rng.random(t) < 0.5
        elif kind == "empty":
            valid[i] = False
        elif kind in ("end", "start"):
            valid[i] = False
            valid[i, -1 if kind == "end" else 0] = True
    means[~valid] = np.nan
    cov[~valid] = np.nan
    return means, cov, valid


class Note(Exception):
    pass


@workload(quick=600, thorough=8000)
def views(rng, m):
    n, t = int(rng.integers(1, 9)), int(rng.integers(2, 9))
    means, cov, valid = states(rng, n, t)
    times = [T0 + datetime.timedelta(seconds=float(x)) for x in np.cumsum(rng.integers(1, 10**6, t))]
    unit = datetime.timedelta(days=1)
    sig = np.sqrt(np.einsum("ntii->nti", cov))
    recorded = gen.pick(rng, ("sigmas", "covariances", "both", "neither"))
    style = gen.pick(rng, (np.array, list, tuple))
    errors = [Note(i, "e") if rng.random() < 0.4 else None for i in range(n)]
    notes = [gen.pick(rng, (None, tuple(f"w{i}-{k}" for k in range(int(rng.integers(1, 4)))), ("same", "length"))) for i in range(n)]
    with_errors = rng.random() < 0.8
    kw = {}
    if recorded in ("sigmas", "both"):
        kw["sigmas"] = style(sig) if style is not np.array else sig.copy()
    if recorded in ("covariances", "both"):
        kw["covariances"] = style(cov) if style is not np.array else cov.copy()
    if with_errors:
        kw.update(errors=list(errors), warnings=tuple(notes))
    images = [[None if rng.random() < 0.3 else int(rng.integers(9)) for _ in range(2)] for _ in range(t)]
    params = {"a": 1}
    m.case(n=n, t=t, recorded=recorded, style=style.__name__, valid=valid)
    m.trivial() if not valid.any() else None
    m.count("sets")
    m.count("tracks", n)
    m.count("gaps", (~valid).sum())
    ok, tr = m.returns(lambda: Tracks(times, unit, style(means), images=images, params=params, **kw), "records")
    if not ok:
        return
    m.equal(list(tr.datetimes), times, "datetimes")
    m.check(tr.time_unit == unit and tr.params == params and tr.tracker is None, "settings")
    m.equal([[x for x in r] for r in tr.images], images, "images")
    m.check(isinstance(tr.images, np.ndarray) and tr.images.shape == (t, 2), "images", kind=type(tr.images).__name__)
    m.equal(np.asarray(tr.means), means, "means")
    m.equal(np.asarray(tr.xyz), means[..., :3], "positions")
    m.equal(np.asarray(tr.vxyz), means[..., 3:], "velocities")
    if recorded == "neither":
        m.check(tr.xyz_sigma is None and tr.vxyz_sigma is None, "no-spreads")
    else:
        m.close(tr.xyz_sigma, sig[..., :3], "position-spreads", rtol=1e-12)
        m.close(tr.vxyz_sigma, sig[..., 3:], "velocity-spreads", rtol=1e-12)
        m.count("covariances", recorded == "covariances")
    if with_errors:
        m.equal([bool(x) for x in tr.success], [e is None for e in errors], "success")
        m.check(np.shape(tr.errors) == (n,) and all(a is b for a, b in zip(tr.errors, errors)), "errors", got=repr(tr.errors))
        m.must(np.shape(tr.warnings) == (n,), "warnings", got=np.shape(tr.warnings))
        m.check(all(a is b or a == b for a, b in zip(tr.warnings, notes)), "warnings", got=tr.warnings, want=notes)
        m.count("notes", n)
    else:
        m.check(tr.success is None, "success")
    # Endpoints
    for _ in range(3):
        idx, sel = select(rng, n)
        ok, got = m.returns(lambda: tr.endpoints() if idx is None else tr.endpoints(idx), "endpoints", index=idx)
        if not ok:
            continue
        m.count("selections")
        some, first, last = (np.asarray(x) for x in got)
        has = [bool(valid[i].any()) for i in sel]
        m.equal(np.asarray(some, dtype=bool).tolist(), has, "which-have-endpoints", index=idx)
        m.equal(first.tolist(), [int(np.nonzero(valid[i])[0][0]) for i, h in zip(sel, has) if h], "first-valid", index=idx)
        m.equal(last.tolist(), [int(np.nonzero(valid[i])[0][-1]) for i, h in zip(sel, has) if h], "last-valid", index=idx)
    m.equal(np.asarray(tr.means), means, "means")


@workload(quick=70, thorough=800)
def recorded(rng, m):
    """What tracking records are the statistics of its particles, whichever are asked for."""
    s = tracking.Setup(rng, m, ntimes=int(rng.integers(4, 6)))
    times = sorted({t for seen in s.seen for t in seen}, reverse=rng.random() < 0.3)
    k = int(rng.integers(1, 4))
    seed = int(rng.integers(10**6))
    n = int(rng.integers(30, 90))
    models = [s.model(rng, times[0], n=n) for _ in range(k)]
    mask = None
    if k > 1 and len(s.seen) > 1:
        mask = rng.random((k, len(s.seen))) < 0.8
        for r in mask:
            r[rng.integers(len(r))] = True
    tk = Tracker(s.observers, resample_method=gen.pick(rng, tracking.METHODS))
    out = {}
    tile = (11, 11)
    m.case(k=k, n=n, times=times, mask=mask)
    for cov in (False, True):
        np.random.seed(seed)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out[cov] = m.call(tk.track, models, datetimes=times, observer_mask=mask, return_covariances=cov, return_particles=True, tile_size=tile)
    a, b = out[False], out[True]
    m.check(a.covariances is None and b.sigmas is None, "asked-for")
    for tr, cov in ((a, False), (b, True)):
        m.must(tr.particles is not None and tr.particles.shape == (k, len(times), n, 6) and tr.weights.shape == (k, len(times), n), "particles")
        m.check(tr.tracker is tk and tr.time_unit == models[0].time_unit and list(tr.datetimes) == times, "settings")
        m.check(tr.params.get("return_covariances", cov) == cov and tr.params["motion_models"] is models and tuple(tr.params["tile_size"]) == tile, "parameters")
        for i in range(k):
            m.count("tracks")
            if tr.errors is not None and tr.errors[i] is not None:
                continue
            for j in range(len(times)):
                p, w = tr.particles[i, j], tr.weights[i, j]
                m.count("recorded states")
                if np.isnan(p).all():
                    m.check(bool(np.isnan(tr.means[i, j]).all() and np.isnan(tr.xyz_sigma[i, j]).all() and np.isnan(w).all()), "missing-together")
                    continue
                m.must(bool(np.isfinite(p).all() and np.isfinite(w).all() and (w >= 0).all() and w.sum() > 0), "finite-particles")
                q = w / w.sum()
                mu = (q[:, None] * p).sum(axis=0)
                dev = p - mu
                C = (q[:, None, None] * dev[:, :, None] * dev[:, None, :]).sum(axis=0)
                sd = np.sqrt(np.diag(C))
                unit = np.repeat([max(sd[:3].max(), 1e-9 * s.gsd), max(sd[3:].max(), 1e-12)], 3)
                scale = np.abs(p).max(axis=0) * 1e-11 + 1e-6 * unit
                m.count("weighted states", np.ptp(w) > 0)
                m.check(bool((np.abs(tr.means[i, j] - mu) <= scale).all()), "weighted-mean", got=tr.means[i, j], want=mu)
                got = np.append(tr.xyz_sigma[i, j], tr.vxyz_sigma[i, j])
                m.check(bool((np.abs(got - sd) <= 1e-5 * unit + 1e-9 * np.abs(p).max(axis=0)).all()), "weighted-spread", got=got, want=sd, covariances=cov)
                if cov:
                    tol = 1e-5 * unit[:, None] * unit[None, :] + 1e-9 * np.abs(p).max() * unit.max()
                    m.check(bool((np.abs(tr.covariances[i, j] - C) <= tol).all()), "weighted-covariance", got=tr.covariances[i, j], want=C)
                    m.count("covariances")
    # Same draws: same states
    m.check(np.allclose(a.means, b.means, rtol=1e-9, atol=1e-9, equal_nan=True), "same-means")
    # Grid of images
    for i, t in enumerate(times):
        for j, seen in enumerate(s.seen):
            m.equal(a.images[i, j], seen.index(t) if t in seen else None, "images")


@workload(quick=160, thorough=1200)
def plots(rng, m):
    n, t = int(rng.integers(1, 7)), int(rng.integers(2, 8))
    means, cov, valid = states(rng, n, t)
    sig = np.sqrt(np.einsum("ntii->nti", cov))
    times = [T0 + datetime.timedelta(hours=float(x)) for x in np.cumsum(rng.uniform(1, 50, t))]
    use_cov = rng.random() < 0.5
    tr = Tracks(times, datetime.timedelta(days=1), means, **({"covariances": cov} if use_cov else {"sigmas": sig}))
    idx, sel = select(rng, n)
    if not sel:
        m.trivial()
        return
    kw = {} if idx is None else {"tracks": idx}
    m.case(n=n, t=t, index=str(idx), valid=valid, cov=use_cov)
    m.count("late starts", sum(int(valid[i].any() and not valid[i, 0]) for i in sel))
    plt.close("all")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        style = gen.pick(rng, (True, {"color": "red"}, {"linewidth": 3}, False, None))
        spread = gen.pick(rng, (False, True, {"alpha": 0.5}, {"ecolor": "blue", "color": "green"}))
        begin = gen.pick(rng, (True, True, {"markersize": 4}, {"color": "green"}, False))
        ok, out = m.returns(lambda: tr.plot_xy(mean=style, start=begin, sigma=spread, **kw), "plots-xy")
        if ok:
            m.count("plots")
            lines = out["mean"] if style else []
            m.check(bool(style) or not out.get("mean"), "no-line", got=out.get("mean"))
            m.must(len(lines) == len(sel) or not style, "one-line-per-track")
            # Other parts are drawn in the color of the track unless told otherwise
            shared = style["color"] if isinstance(style, dict) and "color" in style else "black"
            for line, i in zip(lines, sel):
                m.equal(np.asarray(line.get_xdata(), dtype=float), means[i, :, 0], "line-x")
                m.equal(np.asarray(line.get_ydata(), dtype=float), means[i, :, 1], "line-y")
                m.equal(line.get_color(), shared, "line-style")
                if isinstance(style, dict) and "linewidth" in style:
                    m.equal(line.get_linewidth(), 3.0, "line-style")
            if not begin:
                m.check(not out.get("start"), "no-start", got=out.get("start"))
            for x in out["start"] if begin else []:
                m.equal(x.get_color(), "green" if isinstance(begin, dict) and "color" in begin else shared, "start-style")
                m.equal((x.get_linestyle(), x.get_marker()), ("None", "."), "start-style")
            got = np.vstack([np.column_stack((np.atleast_1d(x.get_xdata()), np.atleast_1d(x.get_ydata()))) for x in (out["start"] if begin else [])] or [np.zeros((0, 2))]).astype(float)
            got = got[np.isfinite(got).all(axis=1)]
            want = np.zeros((0, 2)) if not begin else np.array([means[i, np.nonzero(valid[i])[0][0], :2] for i in sel if valid[i].any()]).reshape(-1, 2)
            m.equal(got, want, "starts")
            if spread:
                m.must(len(out["sigma"]) == len(sel), "one-bar-per-track")
                for bars, i in zip(out["sigma"], sel):
                    data, caps, ranges = bars.lines
                    if not isinstance(spread, dict) or "color" not in spread:
                        m.equal(data.get_color(), shared, "bar-style")
                        m.equal(float(data.get_alpha()), 0.25 if spread is True else 0.5, "bar-style")
                    else:
                        m.equal(data.get_color(), "green", "bar-style")
                    m.equal(np.asarray(data.get_xdata(), dtype=float), means[i, :, 0], "bars")
                    ends = [np.array([np.vstack(x) if len(x) else np.full((2, 2), np.nan) for x in r.get_segments()]) for r in ranges]
                    for d, e in enumerate(ends):
                        v = valid[i]
                        want = np.stack((means[i, v, d] - sig[i, v, d], means[i, v, d] + sig[i, v, d]), axis=1)
                        gd = np.array([x[:, d] for x in e if np.isfinite(x).all()]).reshape(-1, 2)
                        m.close(gd, want, "bar-lengths", rtol=1e-10, atol=1e-9)
            else:
                m.check("sigma" not in out or not out["sigma"], "no-bars")
        ok, out = m.returns(lambda: tr.plot_vxy(**kw), "plots-velocities")
        if ok:
            m.count("plots")
            m.must(len(out) == len(sel), "one-field-per-track")
            for q, i in zip(out, sel):
                v = valid[i]
                xy = np.ma.filled(np.ma.asarray(q.XY, dtype=float), np.nan)
                m.equal(xy[v], means[i, v, :2], "arrows-at")
                U, V = (np.ma.filled(np.ma.asarray(x, dtype=float), np.nan) for x in (q.U, q.V))
                m.equal(U[v], means[i, v, 3], "arrow-x")
                m.equal(V[v], means[i, v, 4], "arrow-y")
        dim = int(rng.integers(3))
        ok, out = m.returns(lambda: tr.plot_v1d(dim, sigma=True, **kw), "plots-velocity")
        if ok:
            m.count("plots")
            m.must(len(out["mean"]) == len(sel) and len(out["sigma"]) == len(sel), "one-line-per-track")
            for line, band, i in zip(out["mean"], out["sigma"], sel):
                m.equal(np.asarray(line.get_ydata(), dtype=float), means[i, :, 3 + dim], "line-v")
                x = [matplotlib.dates.date2num(d) for d in times]
                lx = [v if isinstance(v, float) else matplotlib.dates.date2num(v) for v in line.get_xdata()]
                m.close(lx, x, "line-t", rtol=0, atol=1e-9)
                v = valid[i]
                # All corners of the band
                got = np.vstack([p.vertices for p in band.get_paths()]) if band.get_paths() else np.zeros((0, 2))
                low, high = means[i, :, 3 + dim] - sig[i, :, 3 + dim], means[i, :, 3 + dim] + sig[i, :, 3 + dim]
                runs = [r for r in np.split(np.arange(t), np.nonzero(np.diff(v.astype(int)))[0] + 1) if v[r[0]]]
                for r in runs:
                    for j in r if len(r) > 1 else []:
                        for y in (low[j], high[j]):
                            near = np.abs(got - (x[j], y)) <= (1e-6, 1e-6)
                            m.check(bool(near.all(axis=1).any()), "band", track=i, time=j)
    plt.close("all")


@workload(quick=48, thorough=300)
def animations(rng, m):
    """Every frame of an animation shows the state of the track, its particles and the image at its time."""
    nobs = int(rng.integers(1, 3))
    s = tracking.Setup(rng, m, nobs=nobs, ntimes=5)
    times = sorted(set(t for seen in s.seen for t in seen))
    k = int(rng.integers(1, 4))
    models = [s.model(rng, times[0], n=20) for _ in range(k)]
    with_particles = m.index % 2 == 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tr = Tracker(s.observers).track(
            models, datetimes=times, return_particles=with_particles, tile_size=(11, 11), observer_mask=np.ones((k, nobs), dtype=bool)
        )
    i = int(rng.integers(k))
    o = int(rng.integers(nobs))
    observer = s.observers[o]
    if tr.errors[i] is None and rng.random() < 0.4:
        # As of a track that was lost
        gone = slice(-int(rng.integers(1, 3)), None) if rng.random() < 0.5 else slice(0, int(rng.integers(1, 3)))
        tr.means[i, gone] = np.nan
        if with_particles:
            tr.particles[i, gone] = np.nan
            tr.weights[i, gone] = np.nan
        m.count("lost tracks")
    frames = None if m.index % 3 else sorted(int(v) for v in rng.choice(len(times), int(rng.integers(3, len(times) + 1)), replace=False))
    images = gen.pick(rng, (None, True, False))
    particles = None if rng.random() < 0.5 else bool(with_particles and rng.random() < 0.5)
    tile = tuple(int(v) for v in rng.integers(9, 30, 2))
    size = (rng.uniform(10, 60) * s.gsd, rng.uniform(10, 60) * s.gsd)
    m.case(frames=frames, images=images, particles=particles, recorded=with_particles, obs=o, tile=tile, size=size)
    # Frames with both a position of the track and an image of the observer
    seq = [j for j in (range(len(times)) if frames is None else frames) if times[j] in s.seen[o] and np.isfinite(tr.means[i, j, 0])]
    if tr.errors[i] is not None or len(seq) < 2:
        m.trivial()
        return
    shown = with_particles if particles is None else particles
    kw = {} if o == 0 and rng.random() < 0.5 else {"obs": o}
    kw.update({} if images is None else {"images": images})
    kw.update({} if particles is None else {"particles": particles})
    plt.close("all")
    rec = Recorder()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ok, anim = m.returns(lambda: tr.animate(i, frames=frames, map_size=size, img_size=tile, **kw), "animates")
            if not ok:
                return
            ok, _ = m.returns(lambda: anim.save(os.path.join(scratch(), "x.gif"), writer=rec), "plays")
        if not ok:
            return
        m.count("animations")
        m.must(len(rec.frames) == len(seq) - 1, "frames", got=len(rec.frames), want=len(seq) - 1)
        for j, nxt, panels in zip(seq[:-1], seq[1:], rec.frames):
            m.count("animation frames")
            m.must(len(panels) == (1 if images is False else 2), "panels")
            p = tr.means[i, j]
            ax = panels[0]
            want = np.array([p[0] - size[0] / 2, p[0] + size[0] / 2, p[1] - size[1] / 2, p[1] + size[1] / 2])
            m.close(ax["limits"], want, "map-around-point", rtol=1e-12, atol=1e-9, frame=j)
            m.equal(ax["lines"][0], tr.means[i, : j + 1, :2], "path-so-far", frame=j)
            m.must(len(ax["arrows"]) == 1 + shown, "arrows", got=len(ax["arrows"]))
            steps = (tr.datetimes[nxt] - tr.datetimes[j]) / tr.time_unit
            m.close(ax["arrows"][-1][0], p[None, :2], "arrow-at-point", rtol=1e-12, frame=j)
            m.close(ax["arrows"][-1][1], p[None, 3:5] * steps, "displacement", rtol=1e-9, atol=1e-12, frame=j)
            clim = None
            if shown:
                w = tr.weights[i]
                clim = (np.min(w), np.max(w))
                q = tr.particles[i, j]
                at, d, color, lim = ax["arrows"][0]
                m.close(at, q[:, :2], "particles", rtol=1e-12, frame=j)
                m.close(d, q[:, 3:5] * steps, "displacement", rtol=1e-9, atol=1e-12, frame=j)
                m.close(color, tr.weights[i, j], "weights", rtol=1e-12, frame=j)
                if np.isfinite(clim).all():
                    m.close(lim, clim, "weight-range", rtol=1e-12, frame=j)
            img = tr.images[j, o]
            m.equal(s.seen[o][img], times[j], "image-of-time", frame=j)
            if images is False:
                continue
            ax = panels[1]
            path = observer.xyz_to_uv(tr.means[i, : j + 1, :3], img=img)
            uv = path[-1]
            m.close(ax["lines"][0], path, "path-in-image", rtol=1e-12, atol=1e-9, frame=j)
            m.close(ax["lines"][1], uv[None], "point-in-image", rtol=1e-12, atol=1e-9, frame=j)
            want = np.array([uv[0] - tile[0] / 2, uv[0] + tile[0] / 2, uv[1] + tile[1] / 2, uv[1] - tile[1] / 2])
            m.close(ax["limits"], want, "image-around-point", rtol=1e-12, atol=1e-9, frame=j)
            pixels, e = ax["images"][0]
            m.check(abs((e[0] + e[1]) / 2 - uv[0]) <= 0.51 and abs((e[2] + e[3]) / 2 - uv[1]) <= 0.51, "tile-around-point", extent=e, uv=uv)
            m.equal((e[1] - e[0], e[2] - e[3]), tile, "tile-size", extent=e)
            a = np.asarray(observer.images[img].read())[int(e[3]) : int(e[2]), int(e[0]) : int(e[1])]
            m.equal(np.asarray(pixels), a, "tile-shows-image", frame=j)
            if shown:
                m.must(len(ax["points"]) == 1, "points", got=len(ax["points"]))
                at, color, lim = ax["points"][0]
                m.close(at, observer.xyz_to_uv(q[:, :3], img=img), "particles-in-image", rtol=1e-12, atol=1e-9, frame=j)
                m.close(color, tr.weights[i, j], "weights", rtol=1e-12, frame=j)
    finally:
        plt.close("all")
