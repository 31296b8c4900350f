import collections
import copy
import random
import numpy as np
from gmon import META, workload, watch

META["rule"] = (
    "A case is a randomly chosen workload of another property, run while every public function, method, property and "
    "constructor of glimpse is hooked. The hooks judge no value: they compare what is visible of arguments, subject and other "
    "objects before and after the call, and the answer with the answers to the same question asked again (at once, later, with "
    "arguments laid out differently in memory, and of an equal object without a past)."
)
META["require"] = {
    "judged:arguments-unchanged": 100000, "judged:subject-unchanged": 80000, "judged:others-unchanged": 40000,
    "judged:second-answer": 8000, "judged:layout": 8000, "judged:earlier-answer": 2000, "judged:answer-of-a-twin": 8000,
    "judged:change-of-a-twin": 100, "judged:answer-is-ours": 3000,
    "asked Camera.xyz_to_uv": 500, "asked Raster.sample": 500, "asked Observer.extract_tile": 100, "asked Tracker.track": 30,
    "asked Cameras.fit": 50, "asked RasterInterpolant.__call__": 100, "asked Raster.viewshed": 50, "asked Image.project": 20,
    "asked Matches.predicted": 200, "asked Converter.residuals": 20, "asked helpers.intersect_rays_box": 10,
}
META["assumptions"] = [
    "the state of an object is what its public attributes show; caches are not",
    "attributes, pixels read by an image or observer, and observed values of controls may be what the object itself keeps",
    "calls the library makes of itself are not judged",
    "questions whose arguments include functions are asked once",
]
CASES = {"C03": 150, "G03": 150, "O02": 150, "T04": 120, "T03": 200, "O05": 150, "O03": 100, "H01": 600, "H03": 600, "H04": 600, "C02": 600}

watch.install()
SOURCES = watch.sources()
IN_PLACE = {("evolve_particles", 0), ("helpers.rasterize_points", 4), ("helpers.rasterize_points", "a")}
# Documented to give what is kept
ALIAS = {"Raster.read", "Image.read", "Points.observed", "Matches.observed", "RotationMatchesXY.observed", "Cameras.observed", "Observer.extract_tile"}
FREE = {"write", "insert"}


def relaid(o, coin, depth=0):
    """The same values, laid out differently in memory, and read-only."""
    if isinstance(o, np.ndarray) and type(o) is np.ndarray and o.ndim and o.dtype != object:
        k = coin.randrange(3)
        if k == 0:
            o = np.array(o, order="F")
        elif k == 1:
            o = np.repeat(o, 2, axis=-1)[..., ::2]
        else:
            o = o[::-1].copy()[::-1]
        o.flags.writeable = False
        return o
    if depth < 3 and type(o) in (list, tuple):
        return type(o)(relaid(v, coin, depth + 1) for v in o)
    if depth < 3 and type(o) is dict:
        return {k: relaid(v, coin, depth + 1) for k, v in o.items()}
    return o


def arrays(o, depth=0, seen=None):
    """Arrays in an answer."""
    seen = set() if seen is None else seen
    if id(o) in seen or depth > 4:
        return
    seen.add(id(o))
    if isinstance(o, np.ndarray):
        if o.dtype != object and o.size and o.flags.writeable:
            yield o
    elif isinstance(o, (list, tuple)):
        for v in o:
            yield from arrays(v, depth + 1, seen)
    elif isinstance(o, dict):
        for v in o.values():
            yield from arrays(v, depth + 1, seen)


def scribble(a):
    """Replace every value of an array."""
    if a.dtype == bool:
        a[...] = ~a
    elif a.dtype.kind in "iufc":
        with np.errstate(all="ignore"):
            a[...] = np.where(a == 7, 8, 7)
    else:
        a[...] = a.ravel()[::-1].reshape(a.shape)


def twin(o):
    """An equal object without a past (None if unknown)."""
    name = type(o).__name__
    if not type(o).__module__.startswith("glimpse"):
        return None
    if name == "Camera":
        return type(o)(
            imgsz=o.imgsz.copy(), f=o.f.copy(), c=o.c.copy(), k=o.k.copy(), p=o.p.copy(), xyz=o.xyz.copy(), viewdir=o.viewdir.copy(),
            sensorsz=None if o.sensorsz is None or np.isnan(o.sensorsz).any() else o.sensorsz.copy(), correction=copy.copy(o.correction))
    if name == "Grid":
        t = type(o)(tuple(int(v) for v in o.size), x=o.xlim.copy(), y=o.ylim.copy(), crs=o.crs)
    elif name == "Raster":
        t = type(o)(o.array.copy(), x=o.xlim.copy(), y=o.ylim.copy(), crs=o.crs, datetime=o.datetime)
    else:
        return None
    # Given coordinates may be those of the limits but for rounding, which may decide on which side a point is
    v = copy.copy(o)
    for k, d in (("x", t.d[0]), ("y", t.d[1])):
        a, b = getattr(v, k), getattr(t, k)
        if a.shape == b.shape and not np.array_equal(a, b) and np.abs(a - b).max() < 1e-6 * abs(d):
            return None
    return t
    return None


def reachable(o, found=None, depth=0):
    """Identities of what an object holds."""
    found = set() if found is None else found
    if id(o) in found or depth > 6:
        return found
    if isinstance(o, (list, tuple)):
        for v in o:
            reachable(v, found, depth + 1)
    elif isinstance(o, dict):
        for v in o.values():
            reachable(v, found, depth + 1)
    elif watch.kind(o) and not isinstance(o, type):
        found.add(id(o))
        for v in vars(o).values():
            reachable(v, found, depth + 1)
    return found


class Judge:
    def __init__(self, m, rng, again=0.5):
        self.m, self.again = m, again
        self.coin = random.Random(int(rng.integers(2**31)))
        self.asked = collections.defaultdict(list)
        self.known = collections.OrderedDict()
        self.rasters = {}

    def _args(self, call):
        a = call.args[1:] if call.bound or call.cls else call.args
        return list(a), dict(call.kwargs)

    def before(self, call):
        args, kwargs = self._args(call)
        call.memo["args"] = [watch.state(v) for v in args], {k: watch.state(v) for k, v in kwargs.items()}
        if call.bound and call.name != "__init__":
            call.memo["self"] = watch.state(call.args[0])
            call.memo["twin"] = None
            edited = self.edited(call.args[0])
            if self.coin.random() < 0.5 and call.name not in ("reset", "resize") and not edited:
                call.memo["twin"] = twin(call.args[0])
        for k, (o, _) in self.known.items():
            self.known[k] = o, watch.state(o)
        call.memo["shared"] = reachable(call.args[0]) if call.changes and call.args and call.name != "__init__" else set()
        if call.bound and type(call.args[0]).__name__ == "Raster" and hasattr(call.args[0], "_array"):
            for k, (o, _) in self.known.items():
                if type(o).__name__ == "Raster" and np.shares_memory(o.array, call.args[0].array):
                    call.memo["shared"].add(k)
        call.memo["rng"] = np.random.get_state(), random.getstate()

    def edited(self, o):
        """Whether elements of a raster were changed from outside, which it cannot know of."""
        if type(o).__name__ != "Raster":
            return False
        if id(o) not in self.rasters:
            return True
        known = self.rasters[id(o)]
        if known[1] is not None and not (known[1].shape == o.array.shape and np.array_equal(known[1], o.array, equal_nan=o.array.dtype.kind in "fc")):
            known[1] = None
        return known[1] is None

    def same_args(self, call, mech, report=True):
        args, kwargs = self._args(call)
        was, kwas = call.memo["args"]
        ok = True
        for i, v in list(enumerate(args)) + list(kwargs.items()):
            if (call.name, i) in IN_PLACE:
                continue
            b = kwas[i] if isinstance(i, str) else was[i]
            d = watch.differs(b, watch.state(v))
            if d:
                ok = False
                if report:
                    self.m.fail(mech + "/" + call.label, where=f"{i} {d}", before=b)
        return ok

    def ask(self, call, args):
        """Ask again with the same random numbers."""
        now = np.random.get_state(), random.getstate()
        np.random.set_state(call.memo["rng"][0])
        random.setstate(call.memo["rng"][1])
        try:
            return call.fn(*args, **call.kwargs), None
        except Exception as e:
            return None, e
        finally:
            np.random.set_state(now[0])
            random.setstate(now[1])

    def compare(self, call, first, out, error, mech, tol=0.0):
        m = self.m
        m.count("judged:" + mech)
        if (call.error is None) != (error is None) or type(call.error) is not type(error):
            m.fail(mech + "/" + call.label, first=repr(call.error), second=repr(error))
            return
        if error is None:
            second = watch.state(out)
            d = watch.differs(first, second, "", tol)
            if d:
                m.fail(mech + "/" + call.label, where=d, first=first, second=second)

    def after(self, call):
        m = self.m
        m.count("calls")
        m.count("asked " + call.label)
        m.count("judged:arguments-unchanged")
        self.same_args(call, "argument-changed")
        subject = call.args[0] if call.bound and call.name != "__init__" else None
        if subject is not None and not call.changes:
            m.count("judged:subject-unchanged")
            d = watch.differs(call.memo["self"], watch.state(subject))
            if d:
                m.fail("subject-changed/" + call.label, where=d)
        # others
        for k, (o, s) in list(self.known.items()):
            if o is subject or k in call.memo["shared"]:
                continue
            m.count("judged:others-unchanged")
            d = watch.differs(s, watch.state(o))
            if d:
                m.fail("other-changed/" + call.label, where=d, other=type(o).__name__)
        was, kwas = call.memo["args"]
        out = call.out
        first = watch.state(out)
        known = any(watch.opaque(s) for s in was) or any(watch.opaque(s) for s in kwas.values())
        usable = call.seconds < 0.3 and not known and not watch.opaque(first)
        if usable and call.memo.get("twin") is not None:
            t = call.memo["twin"]
            tout, terr = self.ask(call, (t,) + tuple(call.args[1:]))
            self.compare(call, first, tout, terr, "answer-of-a-twin", 1e-9)
            if call.changes and terr is None and call.error is None:
                m.count("judged:change-of-a-twin")
                d = watch.differs(watch.state(subject), watch.state(t), "", 1e-9)
                if d:
                    m.fail("change-of-a-twin/" + call.label, where=d)
        if usable and not call.changes and self.coin.random() < self.again and not any((call.name, i) in IN_PLACE for i in range(5)):
            skip = 1 if call.cls else 0
            a2 = tuple(call.args[:skip]) + tuple(relaid(v, self.coin) for v in call.args[skip:])
            saved = call.kwargs
            call.kwargs = {k: relaid(v, self.coin) for k, v in saved.items()}
            o4, e4 = self.ask(call, a2)
            call.kwargs = saved
            self.compare(call, first, o4, e4, "layout", 1e-6)
            out2, err2 = self.ask(call, call.args)
            self.compare(call, first, out2, err2, "second-answer", 1e-9)
            if err2 is None and subject is not None and call.label not in ALIAS and call.changes is False:
                saved = [(a, a.copy()) for a in arrays(out2)]
                for a, _ in saved:
                    scribble(a)
                m.count("judged:answer-is-ours")
                d = watch.differs(call.memo["self"], watch.state(subject))
                if d:
                    m.fail("answer-is-ours/" + call.label, where=d)
                out3, err3 = self.ask(call, call.args)
                d = watch.differs(first, watch.state(out3), "", 1e-9) if err3 is None else repr(err3)
                if d:
                    m.fail("answer-is-ours/" + call.label, where="later answer " + d)
                for a, c in reversed(saved):
                    a[...] = c
            if subject is not None:
                log = self.asked[id(subject)]
                if log and not watch.opaque(call.memo["self"]) and self.coin.random() < 0.5:
                    old, ofirst = log[self.coin.randrange(len(log))]
                    if not watch.differs(old.memo["self"], watch.state(subject)) and self.same_args(old, "", False):
                        o, e = self.ask(old, old.args)
                        self.compare(old, ofirst, o, e, "earlier-answer", 1e-9)
                if call.error is None:
                    log.append((call, first))
                    del log[:-10]
        for o in list(call.args) + list(call.kwargs.values()) + [out] + (list(out) if isinstance(out, (list, tuple)) else []):
            if type(o).__name__ in ("Camera", "Grid", "Raster") and watch.kind(o):
                self.known[id(o)] = (o, watch.state(o))
                if type(o).__name__ == "Raster":
                    past = self.rasters.get(id(o))
                    if past is None:
                        # Only what was made under the hooks is known to be untouched
                        if o is out or (call.name == "__init__" and o is call.args[0]):
                            self.rasters[id(o)] = [o, o.array.copy()]
                    elif o is subject and past[1] is not None:
                        past[1] = o.array.copy()
                while len(self.known) > 6:
                    self.known.popitem(last=False)


def _make(prop, ws):
    def fn(rng, m):
        w = ws[int(rng.integers(len(ws)))]
        m.case(workload=w["name"], case=int(rng.integers(2**31)))
        watch.run(w, rng, Judge(m, rng), m.tier)
    workload(quick=CASES.get(prop, 300), thorough=8 * CASES.get(prop, 300), name=prop)(fn)


for _p, _ws in SOURCES.items():
    _make(_p, _ws)
