import numpy as np
from gmon import META, workload, gen, gridops as go, scratch
from glimpse import Grid, Raster

META["rule"] = (
    "A case is a family of 1-6 live rasters or grids derived from one another (copies, slices, "
    "crops, resamplings to one another's grid) taken through 6-25 operations and queries picked "
    "at random members; after each the geometry and values of every member and every array the "
    "caller ever passed in are compared with a model in which members only share values where "
    "the library documents NumPy views. Distinct by initial arguments and history."
)
META["require"] = {"operations": 3000, "bystanders judged": 8000, "queries": 1500, "value edits in place": 150, "coordinate edits": 100}
META["assumptions"] = [
    "a raster wraps the array it is given and slices and crops are views of its values (documented NumPy sharing): "
    "values within such a lineage may change together, never geometry",
]


def _geom(m, g, M, mech, **kw):
    ok = m.check(tuple(int(i) for i in g.size) == tuple(M.n), mech + "/size", got=g.size, n=M.n, **kw)
    for j, a in enumerate("xy"):
        t = M.tol(j)
        ok = ok and m.close(getattr(g, a + "lim"), M.lim[j], f"{mech}/{a}lim", rtol=0, atol=t, **kw)
        ok = ok and m.close(getattr(g, a), M.centers(j), f"{mech}/{a}", rtol=0, atol=t, **kw)
    return bool(ok)


class Family:
    def __init__(self, m):
        self.m = m
        self.members = []
        self.args = []  # (array, snapshot, group or None)
        self.hist = []

    def add(self, g, M):
        self.members.append([g, M])

    def judge(self, what, edited=None, skip=None):
        """edited: group whose values were edited in place by this operation."""
        ok = True
        for k, (g, M) in enumerate(self.members):
            if g is skip:
                continue
            ok &= _geom(self.m, g, M, f"{what}-geometry", member=k, history=self.hist)
            if isinstance(g, Raster):
                if edited is not None and M.group is edited:
                    M.array = np.array(g.array)
                else:
                    a = np.asarray(g.array)
                    ok &= self.m.equal(a, M.array, f"{what}-values", member=k, history=self.hist)
            self.m.count("bystanders judged")
        for arr, snap, group in self.args:
            if group is not None and group is edited:
                snap[...] = arr
            else:
                ok &= self.m.equal(arr, snap, f"{what}-callers-array", history=self.hist)
        return ok


def _arg(F, value, group=None):
    """Register everything array-like the caller passed."""
    if isinstance(value, np.ndarray):
        F.args.append((value, value.copy(), group))
    elif isinstance(value, (tuple, list)):
        for v in value:
            _arg(F, v, group)
    elif isinstance(value, dict):
        for v in value.values():
            _arg(F, v, None)


def _query(rng, m, g, M):
    raster = isinstance(g, Raster)
    inside = np.column_stack(
        [M.lim[j][0] + rng.uniform(0.01, 0.99, 5) * (M.lim[j][1] - M.lim[j][0]) for j in range(2)]
    )
    names = ["coords", "snap", "tiles", "extent", "derived", "rowcol", "eq"]
    if raster:
        names += ["sample", "gridsample", "gradient", "viewshed", "horizon", "hillshade", "data", "rasterize", "polygons", "write", "grid", "read"]
    q = gen.pick(rng, names)
    if q == "coords":
        m.call(g.xyz_to_uv, np.column_stack((inside, np.zeros(5))))
        m.call(g.inbounds_xy, inside)
    elif q == "snap":
        m.call(g.snap_xy, inside, centers=True, edges=bool(rng.random() < 0.5))
    elif q == "tiles":
        out = g.tile_indices(size=np.maximum(np.array(M.n) // 2, 1), overlap=(1, 1))
        del out
    elif q == "extent":
        bx, _, _ = go.crop_box(rng, M, 0)
        by, _, _ = go.crop_box(rng, M, 1)
        kw = {}
        if rng.random() < 0.6:
            kw["xlim"] = bx
        if rng.random() < 0.6:
            kw["ylim"] = by
        out = m.call(g.crop_extent, **kw)
        for a in out:
            if isinstance(a, np.ndarray) and a.size:
                a += 1  # the caller's to edit
    elif q == "derived":
        for a in ("d", "min", "max", "box2d") + (("zlim", "box3d") if raster else ()):
            if a in ("zlim", "box3d") and np.isnan(M.array.astype(float)).all():
                continue
            v = getattr(g, a)
            v += 1
    elif q == "rowcol":
        rc = g.xy_to_rowcol(inside, snap=True)
        m.call(g.rowcol_to_xy, rc)
        m.call(g.idx_to_rowcol, m.call(g.rowcol_to_idx, rc))
    elif q == "eq":
        g == g.copy()
    elif q == "sample":
        order = int(rng.integers(0, 2))
        s = g.sample(inside, order=order)
        s += 1
        m.call(g.sample, inside, bounds_error=False, fill_value=0)
    elif q == "gridsample":
        if min(M.n) > 1:
            m.call(g.sample, (np.sort(inside[:, 0]), np.sort(inside[:, 1])), grid=True)
    elif q == "gradient":
        if min(M.n) > 1:
            for a in g.gradient():
                a += 1
    elif q == "viewshed":
        o = [inside[0, 0], inside[0, 1], 10.0]
        v = m.call(g.viewshed, o, correction=bool(rng.random() < 0.5))
        v[...] = False
    elif q == "horizon":
        o = [inside[0, 0], inside[0, 1], 10.0]
        for h in m.call(g.horizon, o, headings=range(0, 360, 30)):
            h += 1
    elif q == "hillshade":
        if min(M.n) > 1:
            g.hillshade()
    elif q == "data":
        try:
            g.data_extent()
        except ValueError:
            pass
    elif q == "rasterize":
        out = m.call(g.rasterize, inside, rng.normal(size=5))
        out += 1
    elif q == "polygons":
        m.call(g.rasterize_polygons, [inside], holes=[inside[::-1]] if rng.random() < 0.3 else None)
    elif q == "write":
        import os

        if np.asarray(g.array).dtype == np.int64:
            return "none"
        g.write(os.path.join(scratch(), "r.tif"))
    elif q == "grid":
        h = g.grid
        h.shift(dx=3, dy=-2)
        h.x, h.y
    elif q == "read":
        b = [0, 0, int(rng.integers(1, M.n[0] + 1)), int(rng.integers(1, M.n[1] + 1))]
        m.call(g.read, box=b, cache=bool(rng.random() < 0.5))
    return q


@workload(quick=350, thorough=8000)
def family(rng, m):
    F = Family(m)
    for _ in range(int(rng.integers(1, 3))):
        if rng.random() < 0.8:
            g, M, args = go.new_raster(rng)
            _arg(F, args[0], M.group)
        else:
            g, M, args = go.new_grid(rng)
            _arg(F, args[0])
        _arg(F, args[1])
        F.add(g, M)
        m.case(**{f"args{len(F.members)}": args})
    F.judge("constructed")
    for _ in range(int(rng.integers(6, 26))):
        k = int(rng.integers(len(F.members)))
        g, M = F.members[k]
        go.touch(rng, g)
        r = rng.random()
        edited = None
        if r < 0.35:
            what = "query"
            name = _query(rng, m, g, M)
            m.count("queries")
        elif r < 0.42 and len(F.members) > 1:
            # resample to the grid of another member
            h, N = F.members[int(rng.integers(len(F.members)))]
            if h is g or not isinstance(g, Raster):
                continue
            what = name = "resample-to-member"
            g.resample(h, bounds_error=False)
            M = go.Model(N.lim, N.n, np.array(g.array), crs=M.crs, dt=M.dt)
            F.members[k][1] = M
            if rng.random() < 0.5:
                # which keeps its own coordinates
                a = getattr(h, gen.pick(rng, ("x", "y")))
                saved = a.copy()
                try:
                    a += 1
                except ValueError:
                    continue
                F.hist.append((k, "coordinates of the other edited and restored"))
                ok = F.judge("coordinate-edit", skip=h)
                a[...] = saved
                if not ok:
                    return
        elif r < 0.50:
            # arithmetic on the limits through the attribute
            j = int(rng.integers(2))
            s = int(rng.integers(-5, 6))
            what = name = "xlim+=" if j == 0 else "ylim+="
            if j == 0:
                g.xlim += s
            else:
                g.ylim += s
            M.lim[j] = tuple(v + s for v in M.lim[j])
        elif r < 0.56 and isinstance(g, Raster):
            # one cell edited by the user
            what = name = "cell-edit"
            i, j = int(rng.integers(M.n[1])), int(rng.integers(M.n[0]))
            g.array[i, j] = 77
            edited = M.group
            m.check(g.array[i, j] == 77, "cell-edit-applied")
        elif r < 0.60 and F.args:
            # the caller reuses an array of coordinates it passed in
            what = name = "caller-reuses-coordinates"
            t = int(rng.integers(len(F.args)))
            arr, snap, group = F.args[t]
            if group is not None:
                continue
            arr += 1
            snap += 1
        elif r < 0.64:
            # coordinates edited through the attribute of one member
            what = "coordinate-edit"
            attr = gen.pick(rng, ("x", "X", "y", "Y"))
            a = getattr(g, attr)
            saved = a.copy()
            try:
                a += 1
            except ValueError:
                continue
            F.hist.append((k, attr + " edited and restored"))
            m.count("coordinate edits")
            ok = F.judge(what, skip=g)
            a[...] = saved
            if not ok:
                return
            name = what
        else:
            old = M.group
            name, h, N = go.random_op(rng, m, g, M)
            what = name.split("(")[0].split("=")[0].split("[")[0] or "slice"
            if what in ("fill_circle", "crop") and ("zlim" in name or what == "fill_circle"):
                edited = old
                m.count("value edits in place")
            if h is g:
                F.members[k][1] = N
            elif len(F.members) < 6:
                F.add(h, N)
            else:
                t = int(rng.integers(len(F.members)))
                if F.members[t][0] is not g:
                    F.members[t] = [h, N]
        F.hist.append((k, name))
        m.count("operations")
        m.case(history=F.hist)
        if not F.judge(what, edited):
            return
        if any(max(M.n) > 60 for _, M in F.members):
            return
