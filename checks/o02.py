import contextlib
import io
import numpy as np
import matplotlib.pyplot as plt
from gmon import META, workload, gen
from gmon.refcam import RefCam, axes
from glimpse import Camera
from glimpse.optimize import Cameras, Lines, Matches, Points

META["rule"] = (
    "A case is 1-4 random cameras with control generated by known cameras (points, rays, lines, matches), a random choice of parameters "
    "per camera and per group with bounds, weights and options, and a history of evaluations, settings, resets and fits. Oracle: a "
    "reference camera model, a record of which parameter belongs to which camera, and the cameras the control was generated from."
)
META["require"] = {
    "parameters": 1500, "evaluations": 400, "trial failures": 40, "fits": 60, "recovered parameters": 150, "bounded fits": 15,
    "iterative fits": 10, "staged fits": 15, "staged fits that depend on the path": 10, "sparsity columns": 400, "rejected": 60, "scales": 400, "plots": 40,
}
META["assumptions"] = [
    "parameters of a group and of a camera in the group do not overlap",
    "fits start close to the true cameras, and observe enough points to determine the parameters",
]
NAMES = ("xyz", "viewdir", "imgsz", "f", "c", "k", "p")
BREAKS = (0, 3, 6, 8, 10, 12, 18, 20)
SPAN = {n: range(a, b) for n, a, b in zip(NAMES, BREAKS, BREAKS[1:])}
# Typical perturbation of each element
DELTA = np.array([1, 1, 1, 0.5, 0.5, 0.5, 2, 2, 0.01, 0.01, 2, 2] + [0.004] * 6 + [0.0005] * 2)


def quiet(fn, *args, **kwargs):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*args, **kwargs)


def vec(cam):
    return np.concatenate([np.asarray(getattr(cam, n), float) for n in NAMES])


def ref_of(v, correction=None):
    return RefCam(**{n: [float(v[i]) for i in SPAN[n]] for n in NAMES}, correction=correction)


def perturb(rng, v, mask, size=1.0):
    """Vector with the masked elements changed."""
    d = DELTA * rng.uniform(-1, 1, 20) * size
    d[8:10] *= v[8:10]
    d[6:8] = rng.integers(-2, 3, 2)
    d[10:12] *= v[6:8].mean() / 200
    return np.where(mask, v + d, v)


def selection(rng, v, names, bounds=True):
    """A choice of parameters, and the mask and bounds (NaN: default) it means."""
    out, mask, lim = {}, np.zeros(20, bool), np.full((20, 2), np.nan)
    for name in names:
        span = np.array(SPAN[name])
        kind = gen.pick(rng, ("all", "one", "some", "some", "none", "negative"))
        if kind == "all":
            sel, ids = True, span
        elif kind == "one":
            i = int(rng.integers(len(span)))
            sel, ids = i, span[[i]]
        elif kind == "negative":
            i = -int(rng.integers(1, len(span) + 1))
            sel, ids = i, span[[i]]
        elif kind == "some":
            i = rng.permutation(len(span))[: int(rng.integers(1, len(span) + 1))]
            sel, ids = gen.pick(rng, (i.tolist(), i, tuple(i.tolist()) if False else i.tolist())), span[i]
        else:
            sel, ids = gen.pick(rng, (None, False)), span[:0]
        mask[ids] = True
        if bounds and rng.random() < 0.5:
            sides = []
            for s, miss in ((-1, -np.inf), (1, np.inf)):
                side = gen.pick(rng, ("none", "nan", "inf", "one", "each", "mixed"))
                d = np.abs(DELTA[ids]) * rng.uniform(-0.3, 3, len(ids)) + 1e-3 * DELTA[ids]
                if name == "f":
                    d = d * v[8]
                val = v[ids] + s * d
                if side in ("one", "each", "mixed") and len(ids):
                    if side == "one":
                        val[:] = val.min() if s < 0 else val.max()
                        sides.append((float(val[0]), val))
                    elif side == "mixed":
                        drop = rng.random(len(val)) < 0.4
                        val[drop] = np.nan
                        sides.append(([None if b else float(x) for x, b in zip(val, drop)], val))
                    else:
                        sides.append((gen.pick(rng, (val.copy(), val.tolist())), val))
                else:
                    val = np.full(len(ids), miss if side == "inf" else np.nan)
                    sides.append(({"nan": np.nan, "inf": miss}.get(side), val))
            (lo, lov), (hi, hiv) = sides
            with np.errstate(invalid="ignore"):
                if not (lov >= hiv).any():
                    lim[ids, 0], lim[ids, 1] = lov, hiv
                    sel = (sel, lo, hi)
        out[name] = sel
    return out, mask, lim


def filled(lim, default):
    lim = np.where(np.isnan(lim), default, lim)
    return lim


class Layout:
    """Which parameter belongs to which cameras."""

    def __init__(self, groups, group_masks, cam_masks):
        self.slots = []
        for g, mask in zip(groups, group_masks):
            self.slots += [(tuple(g), int(e)) for e in np.flatnonzero(mask)]
        for i, mask in enumerate(cam_masks):
            self.slots += [((i,), int(e)) for e in np.flatnonzero(mask)]

    def apply(self, vectors, values):
        out = [v.copy() for v in vectors]
        for (cams, e), x in zip(self.slots, values):
            for i in cams:
                out[i][e] = x
        return out

    def read(self, vectors):
        return np.array([np.mean([vectors[i][e] for i in cams]) for cams, e in self.slots])


def groups_of(rng, n):
    """Group indices as given, and as lists."""
    kind = gen.pick(rng, ("none", "one", "int", "split", "array", "arrays", "overlap", "part"))
    every = list(range(n))
    if kind == "none":
        return None, [every]
    if kind == "int":
        i = int(rng.integers(n))
        return i, [[i]]
    if kind == "one":
        g = sorted(rng.choice(n, int(rng.integers(1, n + 1)), replace=False).tolist())
        return g, [g]
    if kind == "array":
        g = rng.permutation(n)[: int(rng.integers(1, n + 1))]
        return g, [g.tolist()]
    if kind == "overlap":
        return [every, [int(rng.integers(n))]], None
    if kind == "part":
        g = rng.permutation(n)[: max(1, n - 1)].tolist()
        return [g], [g]
    cut = int(rng.integers(1, n)) if n > 1 else 1
    order = rng.permutation(n).tolist()
    gs = [g for g in (order[:cut], order[cut:]) if g]
    return ([np.array(g) for g in gs] if kind == "arrays" else gs), gs


def cameras(rng, n, equal, distort=0.03, at=None):
    sz = gen.imgsz(rng, 60, 1500)
    out = []
    for _ in range(n):
        size = sz if equal else gen.imgsz(rng, 60, 1500)
        size = (size[0], int(np.clip(size[1], size[0] / 3, size[0] * 3)))
        a = gen.gentle_camera_args(
            rng, rho=0.1, sz=size, pos=tuple(at if at is not None else rng.uniform(-100, 100, 3)), pattern=gen.pick(rng, ("none", "k1", "k12", "p", "k1p"))
        )
        a["f"] = tuple(float(np.clip(i, 0.7 * max(size), 3 * max(size))) for i in a["f"])
        a["k"] = tuple(float(np.clip(i, -0.02, 0.02)) for i in a["k"])
        a["p"] = tuple(float(np.clip(i, -0.002, 0.002)) for i in a["p"])
        out.append(Camera(**a))
    return out


def in_frame(rng, ref, n, margin=0.03):
    # Spread over the frame
    g = int(np.ceil(np.sqrt(n)))
    cell = rng.permutation(g * g)[:n]
    uv = (np.column_stack((cell % g, cell // g)) + rng.uniform(0.1, 0.9, (n, 2))) / g
    uv = (margin + (1 - 2 * margin) * uv) * np.asarray(ref.imgsz, float)
    xy = ref.undistort(ref.xyd_of_uv(uv))
    right, down, fwd = axes(ref.viewdir)
    return xy[:, :1] * right + xy[:, 1:] * down + fwd, uv


def correction_of(cam):
    return cam.correction if isinstance(cam.correction, dict) else None


def lift(ref, rays):
    """World points along rays, seen through a camera with an elevation correction."""
    xyz = rays + np.asarray(ref.xyz)
    if ref.correction:
        s2 = (rays[:, :2] ** 2).sum(axis=1)
        xyz[:, 2] += (1 - ref.correction["refraction"]) * s2 / (2 * ref.correction["radius"])
    return xyz


class Problem:
    """Cameras, control, and the observations expected of any vectors."""

    def __init__(self, rng, ncams, equal, npts, at=None, moves=True):
        self.cams = cameras(rng, ncams, equal, at=at)
        self.truth = [vec(c) for c in self.cams]
        self.corr = [correction_of(c) for c in self.cams]
        self.control, self.parts = [], []
        for i, cam in enumerate(self.cams):
            ref = ref_of(self.truth[i], self.corr[i])
            for _ in range(int(rng.integers(1, 3))):
                n = int(npts())
                rays, uv = in_frame(rng, ref, n)
                directions = not moves and rng.random() < 0.3
                if directions and self.corr[i] is None:
                    xyz = rays
                else:
                    directions = False
                    xyz = lift(ref, rays * 10 ** rng.uniform(1, 2.5, (n, 1)))
                self.control.append(Points(cam, uv, xyz, directions=directions))
                self.parts.append(("points", i, uv, xyz, directions))
        order = rng.permutation(len(self.control))
        self.control = [self.control[i] for i in order]
        self.parts = [self.parts[i] for i in order]
        self.noise(rng, 0)

    def noise(self, rng, size):
        self.uv = np.vstack([p[2] for p in self.parts])
        if size:
            self.uv = self.uv + rng.normal(size=self.uv.shape) * size
            at = 0
            for c, p in zip(self.control, self.parts):
                c.uv = self.uv[at : at + len(p[2])].copy()
                at += len(p[2])

    def project(self, vectors):
        out = []
        for _, i, uv, xyz, directions in self.parts:
            out.append(ref_of(vectors[i], self.corr[i]).project(xyz, directions=directions)[0])
        return np.vstack(out)

    def set(self, vectors):
        for cam, v in zip(self.cams, vectors):
            for n in NAMES:
                setattr(cam, n, v[list(SPAN[n])])

    def state(self):
        return [vec(c) for c in self.cams]


def same(m, a, b, mech):
    return m.check(all(np.array_equal(x, y) for x, y in zip(a, b)), mech, actual=a, expected=b)


def setup(rng, p, n, equal, names_cam, names_group, bounds=True):
    """Parameter selections that do not overlap."""
    given, groups = groups_of(rng, n)
    if groups is None:
        groups = [list(g) for g in given]
    share = [x for x in names_group if equal or x not in ("f", "c")]
    rng.shuffle(names_cam)
    g_sel, g_mask, g_lim = [], [], []
    used = []
    for g in groups:
        names = [x for x in share if x not in used and rng.random() < 0.5]
        if len(groups) > 1 and set(groups[0]) & set(groups[-1]):
            used += names
        s = selection(rng, p.truth[g[0]], names, bounds)
        g_sel.append(s[0]), g_mask.append(s[1]), g_lim.append(s[2])
    c_sel, c_mask, c_lim = [], [], []
    for i in range(n):
        taken = [x for g, s in zip(groups, g_sel) if i in g for x in s]
        names = [x for x in names_cam if x not in taken and rng.random() < 0.5]
        s = selection(rng, p.truth[i], names, bounds)
        c_sel.append(s[0]), c_mask.append(s[1]), c_lim.append(s[2])
    return given, groups, g_sel, g_mask, g_lim, c_sel, c_mask, c_lim


def default_bounds(m, cam, v):
    d = np.asarray(Cameras.camera_bounds(cam), float)
    m.check(d.shape == (20, 2) and bool((d[:, 0] < d[:, 1]).all()), "default-bounds", d=d)
    m.check(bool(np.isinf(d[:6]).all()), "default-bounds-unbounded", d=d)
    m.check(bool((d[6:10, 0] == 0).all() and np.isinf(d[6:10, 1]).all()), "default-bounds-positive", d=d)
    m.close(d[10:12], np.column_stack((-0.5 * v[6:8], 0.5 * v[6:8])), "default-bounds-center")
    m.close(d[12:, 0], -d[12:, 1], "default-bounds-symmetric")
    return d


def layout_base(p, layout, start, expected, j):
    """Image coordinates with a shared parameter at its initial value."""
    vectors = [v.copy() for v in start]
    cs, e = layout.slots[j]
    for i in cs:
        vectors[i][e] = expected[j]
    return p.project(vectors)


# ---- parameters


@workload(quick=220, thorough=3000)
def parameters(rng, m):
    n = int(rng.integers(1, 5))
    equal = bool(rng.random() < 0.6)
    p = Problem(rng, n, equal, lambda: rng.integers(1, 8), moves=False)
    moves = not any(x[4] for x in p.parts)
    names = [x for x in NAMES if moves or x != "xyz"]
    given, groups, g_sel, g_mask, g_lim, c_sel, c_mask, c_lim = setup(rng, p, n, equal, list(names), [x for x in names if x != "imgsz"])
    layout = Layout(groups, g_mask, c_mask)
    m.case(n=n, groups=given, group_params=g_sel, cam_params=c_sel)
    # Masks and bounds of a selection alone
    for s, mask, lim in zip(g_sel + c_sel, g_mask + c_mask, g_lim + c_lim):
        got_mask, got_lim = Cameras.parse_params(s)
        m.equal(got_mask, mask, "mask", selection=s)
        m.equal(got_lim, filled(lim, np.tile([-np.inf, np.inf], (20, 1))), "bounds", selection=s)
        d = np.sort(rng.normal(size=(20, 2)), axis=1)
        m.equal(Cameras.parse_params(s, default_bounds=d)[1], filled(lim, d), "bounds-default", selection=s)
    weights = None
    size = len(p.uv)
    if rng.random() < 0.5:
        weights = rng.uniform(0.1, 5, size)
    stranger = cameras(rng, 1, True)[0]
    control = list(p.control)
    control.insert(int(rng.integers(len(control) + 1)), Points(stranger, [(1, 2)], [(3, 4, 5)]))
    one = n == 1 and rng.random() < 0.7
    defaults = [default_bounds(m, c, v) for c, v in zip(p.cams, p.truth)]
    kwargs = {}
    if given is not None:
        kwargs["group_indices"] = given
    if any(g_sel) or rng.random() < 0.5:
        kwargs["group_params"] = g_sel[0] if len(g_sel) == 1 and rng.random() < 0.5 else g_sel
    if any(c_sel) or rng.random() < 0.5:
        kwargs["cam_params"] = c_sel[0] if n == 1 and rng.random() < 0.5 else c_sel
    start = [perturb(rng, v, (rng.random(20) < 0.3) & ~np.isin(np.arange(20), (6, 7)), 0.1) for v in p.truth]
    if not moves:
        start = [np.concatenate((t[:3], s[3:])) for s, t in zip(start, p.truth)]
    p.set(start)
    start = p.state()
    every = [filled(lim, Cameras.camera_bounds(c)) for lim, c in zip(c_lim, p.cams)]
    least = [filled(lim, np.column_stack((np.max([every[i][:, 0] for i in g], axis=0), np.min([every[i][:, 1] for i in g], axis=0)))) for g, lim in zip(groups, g_lim)]
    if any((b[:, 0] >= b[:, 1]).any() for b in every + least):
        # A bound beyond the default for the other side
        m.trivial()
        return
    ok, model = m.returns(
        lambda: Cameras(
            p.cams[0] if one else gen.pick(rng, (p.cams, tuple(p.cams))),
            control, weights=gen.pick(rng, (weights, None if weights is None else weights.tolist())),
            scales=bool(rng.random() < 0.7), sparsity=bool(rng.random() < 0.7), **kwargs,
        ),
        "construct", args=kwargs,
    )
    if not ok:
        return
    same(m, p.state(), start, "construct-cameras")
    m.count("parameters", len(layout.slots))
    # Initial values and bounds
    expected, lows, highs = layout.read(start), [], []
    defaults = [Cameras.camera_bounds(c) for c in p.cams]
    cb = [filled(lim, d) for lim, d in zip(c_lim, defaults)]
    for g, mask, lim in zip(groups, g_mask, g_lim):
        common = np.column_stack((np.max([cb[i][:, 0] for i in g], axis=0), np.min([cb[i][:, 1] for i in g], axis=0)))
        b = filled(lim, common)[mask]
        lows.append(b[:, 0]), highs.append(b[:, 1])
    for b, mask in zip(cb, c_mask):
        lows.append(b[mask, 0]), highs.append(b[mask, 1])
    lows, highs = np.concatenate(lows), np.concatenate(highs)
    names = list(model.params)
    m.equal(len(names), len(layout.slots), "parameter-count")
    m.close([model.params[x].value for x in names], np.clip(expected, lows, highs), "initial-values", rtol=1e-12, atol=1e-12)
    m.close([model.params[x].min for x in names], lows, "initial-min", rtol=1e-12, atol=1e-12)
    m.close([model.params[x].max for x in names], highs, "initial-max", rtol=1e-12, atol=1e-12)
    m.equal(model.size, size, "size")
    if model.sparsity is not None:
        # Every residual that depends on a parameter is marked as such
        S = np.asarray(model.sparsity.todense()) != 0
        m.must(S.shape == (2 * size, len(names)), "sparsity-shape", shape=S.shape)
        for j, (cs, e) in enumerate(layout.slots):
            shifted = [v.copy() for v in start]
            for i in cs:
                shifted[i][e] = expected[j] + (0.05 * start[cs[0]][8] if e in (8, 9) else 0.01 if e >= 12 else 1)
            d = np.abs(p.project(shifted) - layout_base(p, layout, start, expected, j)) > 1e-4
            m.check(bool(S[d.ravel(), j].all()), "sparsity-covers", slot=(cs, e))
            m.count("sparsity columns")
    w = np.ones(size) if weights is None else weights / weights.mean()

    def evaluate(values, vectors, label):
        m.count("evaluations")
        before = p.state()
        exp = p.project(vectors)
        tol = 1e-6 + 1e-9 * max(v[8:10].max() for v in vectors)
        index = gen.pick(rng, (slice(None), slice(1, None), slice(None, None, 2), rng.permutation(size)[: size // 2 + 1], rng.permutation(size)[: size // 2 + 1].tolist()))
        form = values
        if values is not None:
            form = gen.pick(rng, (values, list(values), lambda: None))
            if callable(form):
                form = model.params.copy()
                for x, val in zip(names, values):
                    form[x].min, form[x].max = -np.inf, np.inf
                    form[x].value = val
        m.close(model.observed(index=index), p.uv[index], label + "observed", rtol=1e-12)
        m.close(model.predicted(params=form, index=index), exp[index], label + "predicted", rtol=1e-9, atol=tol)
        d = (exp - p.uv) * w[:, None]
        tol = tol * w.max()
        m.close(model.residuals(params=form, index=index), d[index], label + "residuals", rtol=1e-8, atol=tol)
        m.close(model.errors(params=form, index=index), np.hypot(*d[index].T), label + "errors", rtol=1e-8, atol=2 * tol)
        same(m, p.state(), before, label + "cameras-untouched")

    evaluate(None, start, "current-")
    saved = start
    for _ in range(int(rng.integers(1, 5))):
        now = p.state()
        masks = [np.zeros(20, bool) for _ in range(n)]
        for cs, e in layout.slots:
            for i in cs:
                masks[i][e] = True
        # Values near the truth
        values = layout.read([perturb(rng, v, k) for v, k in zip(p.truth, masks)])
        values = np.array([round(x) if e in (6, 7) else x for (cs, e), x in zip(layout.slots, values)])
        trial = layout.apply(now, values)
        op = gen.pick(rng, ("evaluate", "set", "save", "reset", "fail", "outside"))
        if op == "evaluate":
            evaluate(values, trial, "trial-")
        elif op in ("set", "save"):
            model.set_cameras(values, save=op == "save")
            same(m, p.state(), trial, "set")
            if op == "save":
                saved = trial
            evaluate(None, trial, "set-")
            # Reading back what was set
            model.update_params()
            read = [x.value for x in model.params.values()]
            m.close(read, np.clip(values, [x.min for x in model.params.values()], [x.max for x in model.params.values()]), "read-back", rtol=1e-12, atol=1e-12)
        elif op == "reset":
            model.reset_cameras()
            same(m, p.state(), saved, "reset")
        elif op == "outside":
            # Changes made to the cameras by others are undone too
            i = int(rng.integers(n))
            p.cams[i].viewdir = np.asarray(p.cams[i].viewdir) + 1
            model.reset_cameras()
            same(m, p.state(), saved, "reset-outside")
            p.cams[i].viewdir = np.asarray(p.cams[i].viewdir) + 1
            model.reset_cameras()
            same(m, p.state(), saved, "reset-twice")
        elif len(layout.slots) > 1:
            # A prediction that cannot be made
            m.count("trial failures")
            short = values[: int(rng.integers(1, len(values)))]
            try:
                model.predicted(params=short)
            except Exception:
                m.count("too few values")
            same(m, p.state(), now, "failed-cameras-untouched")
    model.reset_cameras()
    same(m, p.state(), saved, "reset-last")


@workload(quick=40, thorough=400)
def rays_moved(rng, m):
    """Rays are only valid for the position they were given for."""
    at = rng.uniform(-50, 50, 3)
    cams = cameras(rng, 2, True, at=at)
    for c in cams:
        c.correction = False
    control = []
    for c in cams:
        rays, uv = in_frame(rng, RefCam.of(c), 5)
        control.append(Points(c, uv, rays, directions=True))
    if rng.random() < 0.5:
        control.append(Matches(cams, [np.ones((3, 2)), np.ones((3, 2)) * 2]))
    rng.shuffle(control)
    model = Cameras(cams, control, cam_params=[{"viewdir": True, "xyz": True}, {"f": True}], scales=False)
    m.case(kinds=[type(c).__name__ for c in control])
    before = [vec(c) for c in cams]
    values = np.array([x.value for x in model.params.values()])
    values[0] += 1
    values[3:] += 0.1
    for fn in (model.predicted, model.residuals, model.errors, lambda params: model.plot(params=params)):
        m.count("trial failures")
        m.raises(ValueError, lambda: fn(params=values), "moved")
        same(m, [vec(c) for c in cams], before, "failed-cameras-untouched")
    plt.close("all")
    m.raises(ValueError, lambda: quiet(model.fit), "moved-fit")
    same(m, [vec(c) for c in cams], before, "failed-fit-cameras-untouched")


@workload(quick=80, thorough=400)
def rejected(rng, m):
    """Problems that cannot be solved are refused."""
    n = int(rng.integers(2, 5))
    p = Problem(rng, n, True, lambda: 4)
    kind = gen.pick(rng, ("none", "uncontrolled", "overlap", "sizes"))
    m.case(kind=kind)
    m.count("rejected")
    stranger = cameras(rng, 1, True)[0]
    if kind == "none":
        m.raises(ValueError, lambda: Cameras(stranger, p.control, cam_params={"viewdir": True}), "no-control")
    elif kind == "uncontrolled":
        m.raises(ValueError, lambda: Cameras(p.cams + [stranger], p.control, cam_params=[{}] * n + [{"viewdir": 0}]), "uncontrolled-camera")
        m.raises(ValueError, lambda: Cameras(p.cams + [stranger], p.control, group_params={"viewdir": 0}), "uncontrolled-in-group")
        ok, _ = m.returns(lambda: Cameras(p.cams + [stranger], p.control, cam_params=[{"viewdir": 0}] * n + [{}]), "uncontrolled-unused")
    elif kind == "overlap":
        i = int(rng.integers(n))
        m.raises(
            ValueError,
            lambda: Cameras(p.cams, p.control, group_indices=[list(range(n)), [i]], group_params=[{"k": [0, 1]}, {"k": [1, 2]}]), "overlapping-groups",
        )
        m.returns(
            lambda: Cameras(p.cams, p.control, group_indices=[list(range(n)), [i]], group_params=[{"k": [0, 1]}, {"k": [2, 3]}]), "disjoint-groups",
        )
    else:
        i = int(rng.integers(n))
        p.cams[i].resize((int(p.cams[i].imgsz[0] + 7), int(p.cams[i].imgsz[1] + 3)), force=True)
        name = gen.pick(rng, ("f", "c"))
        m.raises(ValueError, lambda: Cameras(p.cams, p.control, group_params={name: True}), "group-of-sizes", name=name)
        m.returns(lambda: Cameras(p.cams, p.control, group_params={"k": True}), "group-of-sizes-k")
        rest = [j for j in range(n) if j != i]
        m.returns(lambda: Cameras(p.cams, p.control, group_indices=rest, group_params={name: True}), "group-of-equal-sizes")


# ---- fits


def rms(x):
    return float(np.sqrt(np.mean(np.square(x))))


def judge_fit(rng, m, p, layout, start, values, w, ids, lows, highs, label, exact, bounded=False):
    """Values minimize the weighted reprojection errors, and (if exact) are the truth."""
    values = np.asarray(values, float)
    m.must(values.shape == (len(layout.slots),), label + "values", values=values)
    m.check(bool((values >= lows - 1e-9 * np.abs(lows)).all() and (values <= highs + 1e-9 * np.abs(highs)).all()), label + "in-bounds", values=values, lows=lows, highs=highs)

    def resid(x):
        d = (p.project(layout.apply(start, x)) - p.uv)[ids] * w[ids, None]
        return d[~np.isnan(d)]

    here = resid(values)
    cost = (here**2).sum()
    n = len(here)
    truth = layout.read(p.truth)
    t = np.clip(truth, lows, highs)
    # Sensitivity of the residuals to each parameter
    h = np.array([max(1e-7, 1e-7 * abs(x)) for x in truth])
    J = np.column_stack([(resid(truth + h * e) - resid(truth - h * e)) / (2 * hh) for e, hh in zip(np.eye(len(h)), h)])
    s = np.sqrt((J**2).mean(axis=0))
    slack = 1e-6
    if bounded:
        # Solvers may stop, or even start, at a bound
        slack = 0.05
        first = np.clip(layout.read(start), lows, highs)
        m.check(cost <= (resid(first) ** 2).sum() * (1 + slack) + n * 1e-5, label + "no-worse-than-start", rms=rms(here), start=rms(resid(first)))
        if bounded == "leastsq":
            return
    m.check(cost <= (resid(t) ** 2).sum() * (1 + slack) + n * 1e-5, label + "no-worse-than-truth", rms=rms(here), truth=rms(resid(t)))
    if (s < 1e-9).any():
        return
    sv = np.linalg.svd(J / s / np.sqrt(n), compute_uv=False)
    cond = 1 / max(sv[-1], 1e-300)
    for _ in range(4):
        step = rng.normal(size=len(values)) * 0.05 / s
        x = np.clip(values + step, lows, highs)
        m.check(cost <= (resid(x) ** 2).sum() * (1 + slack) + n * 1e-6, label + "minimum", rms=rms(here), nearby=rms(resid(x)))
    inside = ((truth > lows) & (truth < highs)).all()
    if exact and inside:
        m.check(rms(here) < 5e-3, label + "residuals-vanish", rms=rms(here), cond=cond)
        if cond < 1e3:
            m.count("recovered parameters", len(values))
            off = np.abs(values - truth) * s
            m.check(bool((off < 5e-3 * cond).all()), label + "truth", off=off, cond=cond, slots=layout.slots, values=values, truth=truth)


PLANS = (
    ({}, ["viewdir"]),
    ({}, ["viewdir", "xyz"]),
    ({}, ["xyz"]),
    ({}, ["viewdir", "f"]),
    ({}, ["viewdir", "k"]),
    ({}, ["f", "c"]),
    ({}, ["viewdir", "p"]),
    (["f"], ["viewdir"]),
    (["f", "k"], ["viewdir"]),
    (["c"], ["xyz"]),
    (["k"], ["viewdir", "f"]),
    (["p", "f"], ["xyz"]),
    (["f"], []),
    (["viewdir"], ["k"]),
    (["viewdir", "k"], []),
)


def fit_selection(rng, v, names, bounded):
    out, mask, lim = {}, np.zeros(20, bool), np.full((20, 2), np.nan)
    for name in names:
        span = np.array(SPAN[name])
        if name == "k":
            span = span[:2]
        kind = gen.pick(rng, ("all", "all", "some", "one"))
        i = np.arange(len(span)) if kind == "all" else np.sort(rng.permutation(len(span))[: 1 if kind == "one" else int(rng.integers(1, len(span) + 1))])
        ids = span[i]
        sel = True if kind == "all" and name != "k" else (int(i[0]) if len(i) == 1 else i.tolist())
        if bounded and rng.random() < 0.7:
            d = DELTA[ids] * (v[8] if name == "f" else 1) * (v[6] / 200 if name == "c" else 1)
            # Some of the bounds leave out the truth
            a, b = rng.uniform(-0.4, 3, len(ids)), rng.uniform(-0.2, 3, len(ids))
            lo, hi = v[ids] - a * d, v[ids] + (np.maximum(b, -a) + 0.1) * d
            if rng.random() < 0.3:
                sel, lim[ids, 0] = (sel, lo.tolist(), None), lo
            else:
                sel, lim[ids, 0], lim[ids, 1] = (sel, lo.tolist(), hi), lo, hi
        mask[ids] = True
        out[name] = sel
    return out, mask, lim


def build_fit(rng, m, noise, bounded):
    n = int(rng.integers(1, 4))
    p = Problem(rng, n, True, lambda: rng.integers(10, 22))
    g_names, c_names = gen.pick(rng, PLANS)
    given, groups = (None, [list(range(n))]) if rng.random() < 0.4 or n == 1 else gen.pick(rng, (([0], [[0]]), ([[0], list(range(1, n))], [[0], list(range(1, n))])))
    g = [fit_selection(rng, p.truth[ids[0]], g_names, bounded) for ids in groups]
    c = [fit_selection(rng, p.truth[i], c_names, bounded) for i in range(n)]
    return n, p, given, groups, g, c


def truthful(rng, p, groups, g, noise):
    """Rebuild the control for cameras that share what groups share."""
    for ids, (_, mask, _) in zip(groups, g):
        for i in ids:
            p.truth[i] = np.where(mask, p.truth[ids[0]], p.truth[i])
    p.set(p.truth)
    for j, (kind, i, uv, xyz, directions) in enumerate(p.parts):
        ref = ref_of(p.truth[i], p.corr[i])
        rays, uv = in_frame(rng, ref, len(uv))
        xyz = lift(ref, rays * 10 ** rng.uniform(1, 2, (len(uv), 1)))
        p.parts[j] = (kind, i, uv, xyz, directions)
        p.control[j] = Points(p.cams[i], uv, xyz)
    p.noise(rng, noise)


def bounds_of(p, groups, g, c):
    cb = [filled(lim, Cameras.camera_bounds(cam)) for (_, _, lim), cam in zip(c, p.cams)]
    out = []
    for ids, (_, mask, lim) in zip(groups, g):
        common = np.column_stack((np.max([cb[i][:, 0] for i in ids], axis=0), np.min([cb[i][:, 1] for i in ids], axis=0)))
        out.append(filled(lim, common)[mask])
    out += [b[mask] for b, (_, mask, _) in zip(cb, c)]
    return np.vstack(out).T


@workload(quick=180, thorough=1500)
def fits(rng, m):
    noise = float(gen.pick(rng, (0, 0, 0, 0.5)))
    bounded = bool(rng.random() < 0.3)
    n, p, given, groups, g, c = build_fit(rng, m, noise, bounded)
    truthful(rng, p, groups, g, noise)
    layout = Layout(groups, [x[1] for x in g], [x[1] for x in c])
    if not layout.slots:
        m.trivial()
        return
    size = len(p.uv)
    behind = np.zeros(size, bool)
    if rng.random() < 0.25:
        # Points behind a camera have no predicted image coordinates
        at = 0
        for j, (kind, i, uv, xyz, directions) in enumerate(p.parts):
            k = rng.permutation(len(uv))[:2]
            xyz[k] = 2 * p.truth[i][:3] - xyz[k]
            p.control[j].xyz = xyz
            behind[at + k] = True
            at += len(uv)
    masks = [np.zeros(20, bool) for _ in range(n)]
    for cs, e in layout.slots:
        for i in cs:
            masks[i][e] = True
    start = [perturb(rng, v, k) for v, k in zip(p.truth, masks)]
    p.set(start)
    start = p.state()
    lows, highs = bounds_of(p, groups, g, c)
    weights = rng.uniform(0.2, 3, size) if rng.random() < 0.4 else None
    w = np.ones(size) if weights is None else weights / weights.mean()
    method = gen.pick(rng, ("least_squares", "least_squares", "leastsq"))
    opts = dict(scales=bool(rng.random() < 0.7), sparsity=bool(rng.random() < 0.7))
    kwargs = dict(group_params=[x[0] for x in g], cam_params=[x[0] for x in c], **opts)
    if given is not None:
        kwargs["group_indices"] = given
    ids = np.arange(size)
    index = slice(None)
    kind = gen.pick(rng, ("all", "all", "list", "slice"))
    if kind == "list":
        ids = rng.permutation(size)[: int(size * 0.85)]
        index = gen.pick(rng, (ids.tolist(), ids))
    elif kind == "slice":
        index = slice(1, None) if rng.random() < 0.5 else slice(0, size - 1, 1)
        ids = np.arange(size)[index]
    full = bool(rng.random() < 0.3)
    if rng.random() < 0.3:
        # Options of the solver are those given
        some = Cameras(p.cams, p.control, weights=weights, **kwargs)
        m.raises(ValueError, lambda: quiet(some.fit, x_scale=-1.0), "given-scale")
        m.raises(ValueError, lambda: quiet(some.fit, jac_sparsity=np.ones((1, 1))), "given-sparsity")
        same(m, p.state(), start, "refused-cameras-untouched")
    m.case(n=n, groups=given, group_params=kwargs["group_params"], cam_params=kwargs["cam_params"], method=method, noise=noise, weights=weights is not None, index=kind, behind=int(behind.sum()), **opts)
    ok, model = m.returns(lambda: Cameras(p.cams, p.control, weights=weights, **kwargs), "fit-construct")
    if not ok:
        return
    ok, out = m.returns(lambda: quiet(model.fit, index=index, method=method, full=full), "fit-runs")
    if not ok:
        return
    m.count("fits")
    if bounded:
        m.count("bounded fits")
    same(m, p.state(), start, "fit-cameras-untouched")
    if method == "leastsq" and (not out.success if full else out is None):
        # MINPACK may report tolerances it cannot reach
        m.count("without success")
        return
    if full:
        m.must(bool(out.success), "fit-success", message=out.message)
        out = np.array(list(out.params.valuesdict().values()))
    m.must(out is not None, "fit-success")
    judge_fit(rng, m, p, layout, start, out, w, ids, lows, highs, "fit-", not noise, bounded and method)
    model.set_cameras(out)
    same(m, p.state(), layout.apply(start, out), "fit-applied")
    d = model.errors(index=ids)
    exp = np.hypot(*((p.project(p.state()) - p.uv)[ids] * w[ids, None]).T)
    m.close(d, exp, "fit-errors", rtol=1e-6, atol=1e-5)
    model.reset_cameras()
    same(m, p.state(), start, "fit-reset")


@workload(quick=50, thorough=300)
def iterative(rng, m):
    """Fitting some of the parameters first does not change the answer."""
    n, p, given, groups, g, c = build_fit(rng, m, 0, False)
    truthful(rng, p, groups, g, 0)
    layout = Layout(groups, [x[1] for x in g], [x[1] for x in c])
    if not layout.slots:
        m.trivial()
        return
    masks = [np.zeros(20, bool) for _ in range(n)]
    for cs, e in layout.slots:
        for i in cs:
            masks[i][e] = True
    start = [perturb(rng, v, k) for v, k in zip(p.truth, masks)]
    p.set(start)
    start = p.state()
    size = len(p.uv)
    weights = rng.uniform(0.2, 3, size) if rng.random() < 0.4 else None
    w = np.ones(size) if weights is None else weights / weights.mean()
    kwargs = dict(group_params=[x[0] for x in g], cam_params=[x[0] for x in c])
    if given is not None:
        kwargs["group_indices"] = given
    k = int(rng.integers(1, 3))

    def part(sels):
        return [{a: b for a, b in s.items() if rng.random() < 0.6} for s in sels]

    steps = dict(cam_params=[part(kwargs["cam_params"]) for _ in range(k)], group_params=[part(kwargs["group_params"]) for _ in range(k)])
    if any(not any(a) and not any(b) for a, b in zip(*steps.values())):
        m.trivial()
        return
    if rng.random() < 0.2 and any(any(s) for s in steps["cam_params"]):
        del steps["group_params"]
    elif rng.random() < 0.2 and any(any(s) for s in steps["group_params"]):
        del steps["cam_params"]
    method = gen.pick(rng, ("least_squares", "leastsq"))
    m.case(n=n, groups=given, method=method, steps=steps, weights=weights is not None, **{a: kwargs[a] for a in ("group_params", "cam_params")})
    model = Cameras(p.cams, p.control, weights=weights, **kwargs)
    if rng.random() < 0.5:
        # Not the saved state of the cameras
        some = layout.apply(start, layout.read([perturb(rng, v, q) for v, q in zip(p.truth, masks)]))
        model.set_cameras(layout.read(some))
        start = p.state()
    ok, out = m.returns(lambda: quiet(model.fit, method=method, **steps), "fit-runs")
    if not ok:
        return
    m.count("iterative fits")
    same(m, p.state(), start, "cameras-untouched")
    lows, highs = bounds_of(p, groups, g, c)
    m.close([x.value for x in model.params.values()], np.clip(layout.read(start), lows, highs), "initial-values-restored", rtol=1e-12, atol=1e-12)
    if method == "leastsq" and out is None:
        m.count("without success")
        return
    m.must(out is not None, "fit-success")
    lows, highs = bounds_of(p, groups, g, c)
    judge_fit(rng, m, p, layout, start, out, w, np.arange(size), lows, highs, "", True)


@workload(quick=50, thorough=300)
def staged(rng, m):
    """A fit in stages is that of each set of parameters in turn, from where the one before left the cameras."""
    noise = float(gen.pick(rng, (0, 3.0)))
    n, p, given, groups, g, c = build_fit(rng, m, noise, False)
    truthful(rng, p, groups, g, noise)
    layout = Layout(groups, [x[1] for x in g], [x[1] for x in c])
    if len(layout.slots) < 2:
        m.trivial()
        return
    masks = [np.zeros(20, bool) for _ in range(n)]
    for cs, e in layout.slots:
        for i in cs:
            masks[i][e] = True
    p.set([perturb(rng, v, k, 3.0) for v, k in zip(p.truth, masks)])
    start = p.state()
    size = len(p.uv)
    weights = rng.uniform(0.05, 5, size) if rng.random() < 0.6 else None
    final = dict(group_params=[x[0] for x in g], cam_params=[x[0] for x in c])
    base = {} if given is None else {"group_indices": given}

    def part(sels):
        return [{a: b for a, b in s.items() if rng.random() < 0.6} for s in sels]

    k = int(rng.integers(1, 4))
    steps = [(part(final["group_params"]), part(final["cam_params"])) for _ in range(k)]
    if any(not any(a) and not any(b) for a, b in steps):
        m.trivial()
        return
    kind = gen.pick(rng, ("both", "both", "cam_params", "group_params"))
    if kind == "cam_params":
        steps = [(final["group_params"], b) for _, b in steps]
    elif kind == "group_params":
        steps = [(a, final["cam_params"]) for a, _ in steps]
    stages = {a: [s[i] for s in steps] for i, a in enumerate(("group_params", "cam_params")) if kind in ("both", a)}
    # Loose enough for the answer to depend on the path to it
    opts = dict(method="least_squares", ftol=0.9, xtol=0.05)
    ids = np.arange(size)
    if rng.random() < 0.4:
        ids = np.sort(rng.permutation(size)[: int(size * 0.7) + 1])
        opts["index"] = ids
    extra = dict(scales=bool(rng.random() < 0.5), sparsity=bool(rng.random() < 0.5), weights=weights, **base)
    m.case(n=n, groups=given, stages=stages, noise=noise, weights=weights is not None, index=len(ids) < size, **final)
    model = Cameras(p.cams, p.control, **final, **extra)
    ok, out = m.returns(lambda: quiet(model.fit, **opts, **stages), "staged-runs")
    if not ok:
        return
    same(m, p.state(), start, "staged-cameras-untouched")
    lows, highs = bounds_of(p, groups, g, c)
    m.close([x.value for x in model.params.values()], np.clip(layout.read(start), lows, highs), "staged-initial-values", rtol=1e-12, atol=1e-12)
    direct = quiet(model.fit, **opts)
    # The same by hand, from there and from minutely different cameras
    hands = []
    for j in range(4):
        p.set([np.where(k, v + DELTA * 1e-6 * rng.uniform(-1, 1, 20), v) if j else v for v, k in zip(layout.apply(start, layout.read(start)) if j else start, masks)])
        for a, b in steps:
            one = Cameras(p.cams, p.control, group_params=a, cam_params=b, **extra)
            values = quiet(one.fit, **opts)
            if values is not None:
                one.set_cameras(values)
        hands.append(quiet(Cameras(p.cams, p.control, **final, **extra).fit, **opts))
        p.set(start)
    if out is None or direct is None or any(x is None for x in hands):
        return

    def uv(values):
        return p.project(layout.apply(start, values))[ids]

    m.count("staged fits")
    hand = uv(hands[0])
    off, path = rms(uv(out) - hand), rms(uv(direct) - hand)
    if max(rms(uv(x) - hand) for x in hands) > 1e-3 + 0.01 * path:
        m.count("staged fits without a stable path")
        return
    if path > 0.05:
        m.count("staged fits that depend on the path")
    m.check(off <= 5e-3 + 0.1 * path, "staged-in-turn", off=off, path=path)


@workload(quick=30, thorough=300)
def mixed(rng, m):
    """Cameras at one position, tied by matches, some of which also see control."""
    at = rng.uniform(-20, 20, 3)
    n = int(rng.integers(2, 4))
    cams = cameras(rng, n, True, at=at)
    for cam in cams:
        cam.correction = False
        cam.viewdir = np.asarray(cams[0].viewdir) + (0 if cam is cams[0] else rng.normal(size=3) * np.array([2, 2, 2]))
    truth = [vec(c) for c in cams]
    refs = [ref_of(v) for v in truth]
    rays, uv = in_frame(rng, refs[0], 30)
    control = [Points(cams[0], uv, rays * 100 + at)]
    if rng.random() < 0.6:
        right, down, fwd = axes(refs[0].viewdir)
        # A line across the frame, observed at points of it
        s = np.linspace(-1, 1, 400)[:, None]
        half = np.array(refs[0].imgsz) / 2 / refs[0].f
        xy = s * half * (0.6, 0.5 * rng.uniform(-1, 1))
        xyz = (xy[:, :1] * right + xy[:, 1:] * down + fwd) * 200 + at
        ends = xyz[[0, -1]] + (xyz[[0, -1]] - xyz[[-1, 0]]) * 0.1
        see = refs[0].project(xyz)[0][20:-20:40]
        control.append(Lines(cams[0], [see], [np.linspace(ends[0], ends[1], 40)], density=4))
        m.count("lines")
    pairs = 0
    for i in range(1, n):
        j = int(rng.integers(i))
        rays, uva = in_frame(rng, refs[j], 60)
        uvb, _ = refs[i].project(rays, directions=True)
        ok = ((uvb > 0) & (uvb < refs[i].imgsz)).all(axis=1)
        if ok.sum() < 8:
            m.trivial()
            return
        pairs += int(ok.sum())
        order = gen.pick(rng, ((j, i), (i, j)))
        both = {j: uva[ok], i: uvb[ok]}
        control.append(Matches([cams[q] for q in order], [both[q] for q in order]))
    rng.shuffle(control)
    m.case(n=n, pairs=pairs, kinds=[type(c).__name__ for c in control])
    for cam in cams:
        cam.viewdir = np.asarray(cam.viewdir) + rng.uniform(-0.3, 0.3, 3)
    start = [vec(c) for c in cams]
    model = Cameras(cams, control, cam_params=[{"viewdir": True}] * n)
    ok, out = m.returns(lambda: quiet(model.fit), "fit-runs")
    if not ok:
        return
    m.count("fits")
    same(m, [vec(c) for c in cams], start, "cameras-untouched")
    m.must(out is not None, "fit-success")
    model.set_cameras(out)
    has_lines = any(isinstance(c, Lines) for c in control)
    for i, (cam, t) in enumerate(zip(cams, truth)):
        off = np.linalg.norm(np.subtract(axes(cam.viewdir), axes(t[3:6])), axis=1) * t[8]
        m.check(bool((off < (1.0 if has_lines else 0.05)).all()), "truth", camera=i, off=off)
        m.count("recovered parameters", 3)
        m.equal(vec(cam)[[0, 1, 2] + list(range(6, 20))], start[i][[0, 1, 2] + list(range(6, 20))], "others-untouched")


# ---- scales


@workload(quick=60, thorough=1000)
def scales(rng, m):
    """A scale is the change of a parameter that moves image coordinates by about a pixel."""
    cam = cameras(rng, 1, True)[0]
    cam.correction = False
    ref = RefCam.of(cam)
    v = vec(cam)
    n = int(gen.pick(rng, (3, 30, 300)))
    rays, uv = in_frame(rng, ref, max(n, 60), 0.0)
    depth = float(10 ** rng.uniform(1, 4))
    xyz = rays * depth * rng.uniform(0.8, 1.2, (len(rays), 1)) + np.asarray(ref.xyz)
    split = int(rng.integers(1, n)) if n > 1 else 1
    control = [Points(cam, uv[:split], xyz[:split]), Points(cam, uv[split:n], xyz[split:n])]
    if rng.random() < 0.4:
        control[1] = Lines(cam, [uv[split:n]], [xyz[split:n]])
    other = Camera(imgsz=100, f=100)
    control.insert(int(rng.integers(3)), Points(other, [(1, 1)], [(0, 1e6, 0)]))
    m.case(n=n, depth=depth)
    s = np.asarray(Cameras.camera_scales(cam, control), float)
    m.must(s.shape == (20,) and bool((s > 0).all()) and bool(np.isfinite(s).all()), "scale", s=s)
    right, down, fwd = axes(ref.viewdir)
    for e in range(20):
        if e in (6, 7):
            continue
        x = v.copy()
        step = s[e]
        # Small steps, to stay linear
        h = 1e-3
        x[e] += step * h
        moved = ref_of(x).project(xyz)[0] - ref_of(v).project(xyz)[0]
        d = np.hypot(*moved.T).mean() / h
        m.count("scales")
        if e < 3:
            # Upper bound of the displacement
            axis = np.eye(3)[e]
            across = np.sqrt(1 - (axis @ fwd) ** 2)
            m.check(d < 3, "scale-position-most", e=e, d=d)
            if across > 0.5:
                m.check(d > 0.2 * across, "scale-position-least", e=e, d=d, across=across)
        elif e in (3, 4, 5):
            pitch = abs(np.cos(np.radians(v[4])))
            lo = 0.15 * (pitch if e == 3 else 1)
            m.check(lo < d < 6, "scale-viewdir", e=e, d=d)
        elif e < 12:
            m.check(0.1 < d < 4, "scale-focal-center", e=e, d=d)
        else:
            m.check(0.02 < d < 12, "scale-distortion", e=e, d=d)


# ---- plots


@workload(quick=30, thorough=400)
def plots(rng, m):
    n = int(rng.integers(1, 3))
    p = Problem(rng, n, True, lambda: rng.integers(3, 9))
    if n == 1 and len(p.control) > 1:
        p.control, p.parts = p.control[:1], p.parts[:1]
        p.noise(rng, 0)
    layout = Layout([list(range(n))], [np.zeros(20, bool)], [np.isin(np.arange(20), (3, 4, 5))] * n)
    p.set([perturb(rng, v, np.isin(np.arange(20), (3, 4, 5)), 0.3) for v in p.truth])
    start = p.state()
    model = Cameras(p.cams, p.control, cam_params=[{"viewdir": True}] * n)
    values = layout.read(p.truth) + rng.normal(size=3 * n) * 0.2 if rng.random() < 0.6 else None
    vectors = start if values is None else layout.apply(start, values)
    i = int(rng.integers(n))
    size = len(p.uv)
    index = slice(None)
    chosen = np.arange(size)
    if len(p.control) == 1 and rng.random() < 0.6:
        chosen = rng.permutation(size)[: int(rng.integers(1, size + 1))]
        index = gen.pick(rng, (chosen, chosen.tolist()))
    plt.close("all")
    plt.figure()
    ok, out = m.returns(lambda: model.plot(params=values, cam=gen.pick(rng, (i, p.cams[i])), index=index), "plot", index=index)
    if ok:
        m.count("plots")
        same(m, p.state(), start, "plot-cameras-untouched")
        mine = [q for q in p.parts if q[1] == i]
        m.must(len(out) == len(mine), "plot-controls", got=len(out))
        for r, (kind, _, uv, xyz, directions) in zip(out, mine):
            ids = chosen if len(p.control) == 1 else np.arange(len(uv))
            exp = ref_of(vectors[i], p.corr[i]).project(xyz)[0] - uv
            q = r["selected"]
            m.close(np.column_stack((q.X, q.Y)), uv[ids], "plot-origins", rtol=1e-7, atol=1e-4)
            m.close(np.column_stack((q.U, q.V)), exp[ids], "plot-errors", rtol=1e-5, atol=1e-3)
    if len(p.control) > 1:
        m.raises(ValueError, lambda: model.plot(cam=i, index=[0]), "plot-index-of-many")
    plt.close("all")
    weights = rng.uniform(0.5, 2, size) if rng.random() < 0.6 else None
    model = Cameras(p.cams, p.control, cam_params=[{"viewdir": True}] * n, weights=weights)
    ids = rng.permutation(size)[: int(rng.integers(1, size + 1))]
    plt.figure()
    ok, out = m.returns(lambda: model.plot_weights(index=ids), "plot-weights")
    if ok:
        m.count("plots")
        w = np.ones(size) if weights is None else weights / weights.mean()
        m.close(out.get_offsets(), p.uv[ids], "plot-weights-at", rtol=1e-9)
        m.close(np.ravel(out.get_sizes()), w[ids], "plot-weights-sizes")
        m.close(np.ravel(out.get_array()), w[ids], "plot-weights-colors")
    plt.close("all")


@workload(quick=150, thorough=1500)
def single(rng, m):
    """One parameter, from starts as close to the truth as can be."""
    p = Problem(rng, 1, True, lambda: 10)
    e = int(gen.pick(rng, (0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 13, 12, 13, 14, 14, 18, 19)))
    name = next(x for x in NAMES if e in SPAN[x])
    mask = np.arange(20) == e
    start = perturb(rng, p.truth[0], mask, float(gen.pick(rng, (0, 1e-12, 1e-9, 1e-7, 1e-5, 1e-3, 1, 2, 3))))
    exact = bool(rng.random() < 0.4)
    if not exact:
        turn = perturb(rng, start, np.isin(np.arange(20), (3, 4, 5, 8)), float(gen.pick(rng, (1e-3, 1, 3))))
        start = np.where(mask, start, turn)
    p.set([start])
    m.case(name=name, i=e - SPAN[name][0])
    kwargs = gen.pick(rng, ({"cam_params": {name: e - SPAN[name][0]}}, {"group_params": {name: e - SPAN[name][0]}}))
    ok, out = m.returns(lambda: quiet(Cameras(p.cams, p.control, **kwargs).fit), "one-runs")
    if ok:
        m.count("fits")
        m.must(out is not None, "one-success")
        if not exact:
            # The other parameters are off
            return
        layout = Layout([[0]], [np.zeros(20, bool)], [mask])
        lows, highs = np.array([-np.inf]), np.array([np.inf])
        judge_fit(rng, m, p, layout, [start], out, np.ones(len(p.uv)), np.arange(len(p.uv)), lows, highs, "one-", True)
