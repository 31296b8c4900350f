import json
import os
import numpy as np
from gmon import META, workload, gen, scratch
from gmon.refcam import RefCam, axes
from glimpse import Camera, helpers

META["rule"] = (
    "A case is a family of cameras driven through a random history of attribute "
    "assignments (whole, element, scalar, metric), resizes, resets, idealizations, copies "
    "and JSON round trips; after every operation every live camera is compared with an "
    "independently kept state. Non-trivial: at least 3 operations. Distinct by history."
)
META["require"] = {"operations": 1000, "resizes": 100, "copies": 100, "json": 100, "written files": 100, "resets": 100}

SIZES = {"xyz": 3, "viewdir": 3, "f": 2, "c": 2, "k": 6, "p": 2}


class Model:
    """Expected state of one camera."""

    def __init__(self, state, sensorsz=None, correction=None):
        self.s = {k: np.array(v, dtype=float) for k, v in state.items()}
        self.sensorsz = None if sensorsz is None else np.array(sensorsz, float)
        self.correction = correction
        self.orig = {k: v.copy() for k, v in self.s.items()}

    def copy(self):
        o = Model(self.s, self.sensorsz, self.correction)
        return o


def compare(m, cam, mod, hist):
    ok = True
    for key, v in mod.s.items():
        ok &= m.close(getattr(cam, key), v, "state-" + key, rtol=1e-12, atol=1e-12, history=hist)
    m.check(cam.imgsz.dtype.kind == "i", "imgsz-integer", history=hist)
    if mod.sensorsz is None:
        m.check(cam.sensorsz is None and cam.fmm is None and cam.cmm is None, "no-sensor-no-mm", history=hist)
    else:
        m.close(cam.sensorsz, mod.sensorsz, "sensorsz", history=hist)
        m.close(cam.fmm, mod.s["f"] * mod.sensorsz / mod.s["imgsz"], "fmm", rtol=1e-12, history=hist)
        m.close(cam.cmm, mod.s["c"] * mod.sensorsz / mod.s["imgsz"], "cmm", rtol=1e-12, atol=1e-12, history=hist)
    m.close(cam.R, np.array(axes(mod.s["viewdir"])), "R-current", rtol=0, atol=1e-11, history=hist)
    m.equal(cam.correction if isinstance(cam.correction, dict) else None, mod.correction, "correction", history=hist)
    want = np.concatenate([mod.s[k] for k in ("xyz", "viewdir", "imgsz", "f", "c", "k", "p")])
    m.close(cam.to_array(), want, "to_array", rtol=1e-12, atol=1e-12, history=hist)
    return ok


def construct(rng, m):
    a = gen.camera_args(rng)
    kw = dict(a)
    sensor = None
    style = gen.pick(rng, ("px", "mm", "mixed", "sensor"))
    if style != "px":
        sensor = (float(rng.uniform(5, 40)), float(rng.uniform(5, 40)))
        if rng.random() < 0.3:
            sensor = (sensor[0], sensor[0])
        kw["sensorsz"] = sensor[0] if sensor[0] == sensor[1] and rng.random() < 0.5 else sensor
    sz = np.array(a["imgsz"], float)
    if style in ("mm", "mixed"):
        fmm = np.array(a["f"]) * sensor / sz
        kw.pop("f")
        kw["fmm"] = tuple(fmm) if rng.random() < 0.5 else list(fmm)
        if rng.random() < 0.3:
            kw["fmm"] = float(fmm[0])
            a["f"] = tuple(float(fmm[0]) * sz / sensor)
    if style == "mm":
        kw.pop("c")
        if a["c"] != (0.0, 0.0):
            kw["cmm"] = np.array(a["c"]) * sensor / sz
    # short forms
    if not any(a["k"][2:]) and rng.random() < 0.7:
        kw["k"] = list(a["k"][:2])
    for key in ("xyz", "viewdir", "k", "p"):
        r = rng.random()
        if r < 0.3:
            kw[key] = list(kw[key])
        elif r < 0.6:
            kw[key] = np.array(kw[key], dtype=float)
    if rng.random() < 0.2:
        kw["imgsz"] = np.array(kw["imgsz"])
    ok, cam = m.returns(lambda: m.call(Camera, **kw), "construct", kw=kw)
    if not ok:
        return None
    corr = None
    if kw["correction"] is True or isinstance(kw["correction"], dict):
        corr = {"radius": 6.3781e6, "refraction": 0.13}
        if isinstance(kw["correction"], dict):
            corr.update(kw["correction"])
    state = {k: a[k] for k in ("xyz", "viewdir", "imgsz", "f", "c", "k", "p")}
    mod = Model(state, sensor, corr)
    compare(m, cam, mod, ["construct", kw])
    # later edits of the caller's arrays must not reach the camera
    for v in kw.values():
        if isinstance(v, np.ndarray) and v.dtype.kind == "f":
            v += 1
        elif isinstance(v, dict):
            v["radius"] = 1.0
    compare(m, cam, mod, ["edit-arguments", kw])
    return cam, mod, kw


@workload(quick=350, thorough=15000)
def history(rng, m):
    got = construct(rng, m)
    if got is None:
        return
    cam, mod, kw = got
    m.case(args=kw)
    live = [(cam, mod)]
    hist = []
    nops = int(rng.integers(1, 14))
    if nops < 3:
        m.trivial()
    for _ in range(nops):
        i = int(rng.integers(len(live)))
        cam, mod = live[i]
        op = gen.pick(
            rng,
            ("set", "set", "elem", "scalar", "mm", "resize", "resize", "resize", "force", "reset",
             "copy", "idealize", "json", "inplace", "sensor", "todict"),
        )
        m.count("operations")
        sz = mod.s["imgsz"]
        if op == "set":
            other = gen.camera_args(rng, sz=tuple(int(v) for v in sz))
            key = gen.pick(rng, list(SIZES))
            v = other[key]
            v = gen.pick(rng, (tuple(v), list(v), np.array(v)))
            m.call(setattr, cam, key, v)
            mod.s[key] = np.array(v, float)
            if isinstance(v, np.ndarray):
                v += 5  # must not be an alias
            hist.append((i, "set", key))
        elif op == "elem":
            key = gen.pick(rng, list(SIZES))
            j = int(rng.integers(SIZES[key]))
            v = float(mod.s[key][j] + rng.uniform(-0.01, 0.01))
            getattr(cam, key)[j] = v
            mod.s[key][j] = v
            hist.append((i, "elem", key, j))
        elif op == "inplace":
            key = gen.pick(rng, ("xyz", "viewdir", "f"))
            v = float(rng.uniform(0.1, 2))
            w = getattr(cam, key)
            w += v
            mod.s[key] = mod.s[key] + v
            hist.append((i, "inplace", key))
        elif op == "scalar":
            key = gen.pick(rng, ("f", "k", "p", "c", "viewdir"))
            v = float(rng.uniform(0.001, 0.01)) if key in ("k", "p") else float(rng.uniform(1, 50))
            setattr(cam, key, v)
            n = SIZES[key]
            mod.s[key] = np.full(n, v) if key == "f" else np.array([v] + [0.0] * (n - 1))
            hist.append((i, "scalar", key))
        elif op == "mm":
            key = gen.pick(rng, ("fmm", "cmm"))
            v = rng.uniform(1, 50, 2) if key == "fmm" else rng.uniform(-2, 2, 2)
            if mod.sensorsz is None:
                m.raises(ValueError, lambda: setattr(cam, key, v), "mm-needs-sensor")
            else:
                m.call(setattr, cam, key, v)
                mod.s[key[0]] = v * sz / mod.sensorsz
            hist.append((i, key))
        elif op == "sensor":
            if mod.sensorsz is not None:
                v = rng.uniform(5, 40, 2)
                m.call(setattr, cam, "sensorsz", v)
                mod.sensorsz = v.copy()
                v += 1
                hist.append((i, "sensor"))
        elif op in ("resize", "force"):
            m.count("resizes")
            o = mod.orig["imgsz"]
            scale = gen.loguniform(rng, 0.05, 3)
            if rng.random() < 0.2:
                scale = float(gen.pick(rng, (1, 0.5, 2, 0.25)))
            new = np.floor(scale * o + 0.5)
            if (new < 1).any():
                continue
            if op == "force":
                new = np.floor(np.array([rng.uniform(1, 3), rng.uniform(1, 3)]) * o)
                arg, kwf = tuple(int(v) for v in new), {"force": True}
            elif rng.random() < 0.5:
                arg, kwf = scale, {}
            else:
                arg, kwf = tuple(int(v) for v in new), {}
                if rng.random() < 0.3:
                    arg = np.array(arg)
            u_rel = cam.xyz_to_uv(np.array([cam.R[2]]), directions=True) / sz
            ok, _ = m.returns(lambda: m.call(cam.resize, arg, **kwf), "resize", arg=arg, orig=o, history=hist)
            if not ok:
                return
            ratio = new / sz
            mod.s["f"] = mod.s["f"] * ratio
            mod.s["c"] = mod.s["c"] * ratio
            mod.s["imgsz"] = new
            u_new = cam.xyz_to_uv(np.array([cam.R[2]]), directions=True) / new
            m.close(u_new, u_rel, "resize-keeps-relative-position", rtol=1e-9, atol=1e-9, history=hist)
            hist.append((i, op, arg))
        elif op == "reset":
            m.count("resets")
            cam.reset()
            mod.s = {k: v.copy() for k, v in mod.orig.items()}
            hist.append((i, "reset"))
        elif op == "copy":
            m.count("copies")
            c2 = cam.copy()
            m.check(c2 is not cam and isinstance(c2, Camera), "copy-new-object")
            live.append((c2, mod.copy()))
            hist.append((i, "copy"))
        elif op == "idealize":
            cam.idealize()
            for key in "kpc":
                mod.s[key] = np.zeros(SIZES[key])
            hist.append((i, "idealize"))
        elif op == "json":
            m.count("json")
            path = os.path.join(scratch(), "sub", "cam.json")
            attrs = ["xyz", "viewdir", "imgsz", "f", "c", "k", "p"]
            sens = mod.sensorsz is not None and rng.random() < 0.6
            if sens:
                attrs.append("sensorsz")
                if rng.random() < 0.5:
                    attrs[3] = "fmm"
                if rng.random() < 0.5:
                    attrs[4] = "cmm"
            wcorr = rng.random() < 0.5
            if wcorr:
                attrs.append("correction")
            if not sens and mod.sensorsz is None and rng.random() < 0.3:
                attrs.append("sensorsz")
            kw2 = gen.pick(rng, ({}, {"indent": 2}, {"indent": 4, "flat_arrays": True}, {"indent": 0}))
            args2 = dict(kw2)
            if attrs[3:5] != ["f", "c"] or len(attrs) > 7 or rng.random() < 0.3:
                args2["attributes"] = gen.pick(rng, (tuple(attrs), list(attrs)))
            txt = cam.to_json(**args2)
            cam.to_json(path, **args2)
            with open(path) as fp:
                m.equal(json.load(fp), json.loads(txt), "json-file-is-string")
            c2 = Camera.from_json(path)
            mod2 = mod.copy()
            mod2.sensorsz = mod.sensorsz if sens else None
            mod2.correction = mod.correction if wcorr else None
            live.append((c2, mod2))
            hist.append((i, "json", kw2, tuple(attrs)))
            if rng.random() < 0.3:
                c3 = Camera.from_json(path, xyz=(1, 2, 3))
                m.close(c3.xyz, (1, 2, 3), "json-override")
                m.close(c3.viewdir, mod.s["viewdir"], "json-override-rest")
        elif op == "todict":
            d = cam.to_dict()
            for key, v in d.items():
                m.close(v, mod.s[key], "to_dict", rtol=1e-12, atol=1e-12)
                m.check(isinstance(v, list), "to_dict-native")
            a = cam.to_array()
            a += 1  # independent
            d["f"][0] = -1
            hist.append((i, "todict"))
        for j, (c, mo) in enumerate(live):
            compare(m, c, mo, hist)
    m.case(history=hist)


@workload(quick=150, thorough=3000)
def written_files(rng, m):
    """A camera file written by hand means the same as the arguments that it lists."""
    a = gen.camera_args(rng)
    args = {"imgsz": list(a["imgsz"])}
    sensor = rng.random() < 0.5
    if sensor:
        args["sensorsz"] = [float(v) for v in rng.uniform(5, 40, 2)]
    size = args.get("sensorsz", [1, 1])
    for px, mm in (("f", "fmm"), ("c", "cmm")):
        v = [float(i) for i in a[px]]
        if sensor and rng.random() < 0.5:
            args[mm] = [i * s / n for i, s, n in zip(v, size, a["imgsz"])]
            if rng.random() < 0.5:
                args[px] = None
        elif px == "f" or rng.random() < 0.7:
            args[px] = v
            if rng.random() < 0.3:
                args[mm] = None
    if "f" in args and args["f"] and rng.random() < 0.3:
        args["f"] = args["f"][0]
    for key in ("k", "p", "xyz", "viewdir"):
        if rng.random() < 0.7:
            args[key] = [float(v) for v in a[key]][: int(rng.integers(1, len(a[key]) + 1)) if key in "kp" else None]
    if not sensor and rng.random() < 0.3:
        args["sensorsz"] = None
    kind = gen.pick(rng, ("missing", "null", "no", "yes", "dict", "part"))
    if kind != "missing":
        args["correction"] = {"null": None, "no": False, "yes": True, "dict": {"radius": 6e6, "refraction": 0.2}, "part": {"refraction": 0.2}}[kind]
    args = {k: args[k] for k in rng.permutation(list(args))}
    m.case(args=args)
    m.count("written files")
    path = os.path.join(scratch(), "cam.json")
    with open(path, "w") as fp:
        json.dump(args, fp, indent=gen.pick(rng, (None, 2)))
    ok, cam = m.returns(lambda: Camera.from_json(path), "read", args=args)
    if not ok:
        return
    want = Camera(**args)
    m.close(cam.to_array(), want.to_array(), "file-means-arguments", rtol=1e-12)
    m.check((cam.sensorsz is None) == (want.sensorsz is None), "file-sensor", got=cam.sensorsz)
    if want.sensorsz is not None:
        m.close(cam.sensorsz, want.sensorsz, "file-sensor", rtol=1e-12)
    m.equal(cam.correction if isinstance(cam.correction, dict) else None, want.correction if isinstance(want.correction, dict) else None, "file-correction")
    xyz = np.asarray(want.xyz) + rng.normal(size=(5, 3)) * 1e4
    m.close(cam.xyz_to_uv(xyz), want.xyz_to_uv(xyz), "file-projects", rtol=1e-9, atol=1e-9)


@workload(quick=150, thorough=3000)
def resize_targets(rng, m):
    """Any size reached by scaling the original is accepted; others are rejected."""
    sz = gen.imgsz(rng, 2, 3000)
    cam = Camera(imgsz=sz, f=float(max(sz)))
    o = np.array(sz)
    m.case(size=sz)
    for _ in range(10):
        s = gen.loguniform(rng, 0.1, 4)
        new = np.floor(s * o + 0.5).astype(int)
        if (new < 1).any():
            continue
        ok, _ = m.returns(lambda: cam.resize(tuple(new)), "reachable-size-accepted", size=sz, target=new)
        if ok:
            m.equal(cam.imgsz, new, "target-size", size=sz)
            m.close(cam.f, max(sz) * new / o, "target-f", size=sz)
        m.check(
            (s2 := helpers.get_scale_from_size(tuple(o), tuple(new))) is not None
            and (np.round(s2 * o) == new).all(),
            "scale-reproduces-size", size=sz, target=new, scale=s2,
        )
        # clearly different aspect
        bad = new.copy()
        j = int(rng.integers(2))
        bad[j] = bad[j] + max(3, int(np.ceil(2.5 * max(1, new[j] / new[1 - j]))))
        lo = (bad - 0.5) / o
        hi = (bad + 0.5) / o
        if lo.max() > hi.min() + 1e-9:
            before = cam.to_array()
            m.raises(ValueError, lambda: cam.resize(tuple(bad)), "unreachable-size-rejected", size=sz, target=bad)
            m.equal(cam.to_array(), before, "rejected-resize-changes-nothing")
    cam.reset()
    m.equal(cam.imgsz, o, "reset-size")


@workload(quick=100, thorough=2000)
def rejects(rng, m):
    """Contradictory arguments are rejected."""
    kw = {"imgsz": (10, 20), "f": 10.0}
    m.case(x=float(rng.random()))
    m.raises(ValueError, lambda: Camera(imgsz=(10, 20)), "focal-missing")
    m.raises(ValueError, lambda: Camera(**kw, fmm=1.0, sensorsz=(2, 3)), "f-and-fmm")
    m.raises(ValueError, lambda: Camera(imgsz=(10, 20), fmm=1.0), "fmm-without-sensor")
    m.raises(ValueError, lambda: Camera(**kw, cmm=(1.0, 1)), "cmm-without-sensor")
    m.raises(ValueError, lambda: Camera(**kw, c=(1.0, 1), cmm=(1.0, 1), sensorsz=(2, 3)), "c-and-cmm")
    v = float(rng.integers(1, 100)) + float(rng.uniform(0.01, 0.99))
    m.raises(ValueError, lambda: Camera(imgsz=(v, 20), f=1), "imgsz-not-integer")
    m.raises(ValueError, lambda: Camera(imgsz=(20, v), f=1), "imgsz-not-integer")
    cam = Camera(**kw)
    m.raises(ValueError, lambda: setattr(cam, "imgsz", v), "imgsz-not-integer-set")
    m.raises(ValueError, lambda: setattr(cam, "imgsz", (v, 7)), "imgsz-not-integer-set")
    m.raises(ValueError, lambda: setattr(cam, "imgsz", (7, v)), "imgsz-not-integer-set")
    m.equal(cam.imgsz, np.array([10, 20]), "imgsz-kept")
