"""Hooks on every public function, method, property and constructor of glimpse.

The workloads of all other properties are run under these hooks, which do not judge
what an answer is, but what asking for it does (P01) and leaves behind (P02). Only
calls made from outside the library are judged: what the library calls itself is its
own business. Only what is visible from outside counts as the state of an object.
"""
import copy
import datetime
import functools
import importlib
import inspect
import os
import pkgutil
import random
import time
import types
import warnings

import numpy as np

from . import core

DEPTH = 7
SCALARS = (int, float, complex, str, bytes, bool, type(None), datetime.date, datetime.timedelta, np.generic, types.EllipsisType, slice)

# What can be seen of an object; others: its public instance attributes
VISIBLE = {
    "Grid": ("xlim", "ylim", "size", "crs"),
    "Raster": ("array", "xlim", "ylim", "size", "crs", "datetime"),
    "Image": ("path", "cam", "datetime"),
    "Camera": ("xyz", "viewdir", "imgsz", "f", "c", "k", "p", "sensorsz", "correction", "original_vector"),
}
# Answers kept to be given again are not part of what an object is
HIDDEN = {}

# Methods which are there to change their object
CHANGES = {
    "Camera": {"reset", "resize", "idealize"},
    "Grid": {"resize", "shift"},
    "Raster": {"resample", "crop", "resize", "shift", "fill_circle", "fill_crevasses", "crop_to_data", },
    "Points": {"resize"}, "Lines": {"resize"},
    "Matches": {"resize", "filter"}, "RotationMatches": {"resize", "filter"},
    "RotationMatchesXY": {"resize", "filter"}, "RotationMatchesXYZ": {"resize", "filter"},
    "Polynomial": {"fit"},
    "Cameras": {"update_params", "set_cameras", "reset_cameras", "fit"},
    "ObserverCameras": {"set_cameras", "reset_cameras", "build_keypoints", "build_matches", "fit"},
    "KeypointMatcher": {"build_keypoints", "build_matches", "convert_matches", "filter_matches", "drop_images"},
    "Converter": {"optimize_cam", "optimize_xcam"},
    "Observer": {"cache_images", "clear_images", "subset", "split"},
    "Tracker": {"initialize_weights", "update_weights", "resample_particles", "track", "reset", "initialize_template", "test_particles"},
}


def kind(o):
    for c in type(o).__mro__:
        if (c.__module__ or "").startswith("glimpse"):
            return c.__name__
    return None


def state(o, depth=0, seen=()):
    """A value copy of what can be seen of an object."""
    if isinstance(o, np.ndarray):
        if o.dtype == object and depth < DEPTH:
            return ("objects", o.shape, [state(v, depth + 1, seen) for v in o.ravel()])
        return ("array", o.dtype.str, o.shape, o.copy())
    if isinstance(o, SCALARS):
        return ("value", type(o).__name__, o)
    if id(o) in seen or depth >= DEPTH:
        return ("id", id(o))
    seen = seen + (id(o),)
    if isinstance(o, (list, tuple)):
        return ("sequence", type(o).__name__, [state(v, depth + 1, seen) for v in o])
    if isinstance(o, dict):
        return ("mapping", type(o).__name__, [(k if isinstance(k, SCALARS + (tuple,)) else id(k), state(v, depth + 1, seen)) for k, v in o.items()])
    if isinstance(o, (set, frozenset)):
        return ("set", frozenset(v for v in o if isinstance(v, SCALARS)))
    name = kind(o)
    if name is None:
        return ("id", id(o))
    if isinstance(o, type):
        return ("id", id(o))
    visible = VISIBLE.get(name)
    values = {}
    if visible is None:
        visible = [k for k in getattr(o, "__dict__", {}) if not k.startswith("_") and k not in HIDDEN.get(name, ())]
    for k in visible:
        try:
            values[k] = getattr(o, k)
        except AttributeError:
            values[k] = None
    return ("object", name, [(k, state(v, depth + 1, seen)) for k, v in values.items()])


def differs(a, b, where="", tol=0.0):
    """Where two states differ ('' if nowhere)."""
    if a[0] != b[0]:
        return where or "kind"
    if a[0] == "array":
        if a[2] != b[2] or (not tol and a[1] != b[1]):
            return where or "shape or type"
        x, y = a[3], b[3]
        if x.dtype.kind in "fc" and y.dtype.kind in "fc":
            t = max(tol, 1e-3) if tol and min(x.dtype.itemsize, y.dtype.itemsize) < 8 else tol
            same = np.array_equal(x, y, equal_nan=True) if not t else np.allclose(x, y, rtol=t, atol=t, equal_nan=True)
        else:
            same = bool(np.all(x == y))
        return "" if same else where or "values"
    if a[0] == "value":
        x, y = a[2], b[2]
        if isinstance(x, (float, np.floating)) and isinstance(y, (float, np.floating)):
            same = (x == y) or (x != x and y != y) or (tol and abs(x - y) <= tol * (1 + abs(x)))
        else:
            same = type(x) is type(y) and (x == y or x != x)
        return "" if same else where or "value"
    if a[0] in ("sequence", "objects"):
        if a[1] != b[1] or len(a[2]) != len(b[2]):
            return where or "length or type"
        for i, (x, y) in enumerate(zip(a[2], b[2])):
            d = differs(x, y, f"{where}[{i}]", tol)
            if d:
                return d
        return ""
    if a[0] in ("mapping", "object"):
        if a[1] != b[1] or [k for k, _ in a[2]] != [k for k, _ in b[2]]:
            return (where + ".keys")
        for (k, x), (_, y) in zip(a[2], b[2]):
            d = differs(x, y, f"{where}.{k}", tol)
            if d:
                return d
        return ""
    if a[0] == "set":
        return "" if a[1] == b[1] else where or "members"
    return "" if a[1] == b[1] else where or "identity"


def opaque(s, of=("id",)):
    """Whether a state holds anything whose value is unknown."""
    if s[0] in of:
        return True
    if s[0] in ("sequence", "objects"):
        return any(opaque(v, of) for v in s[2])
    if s[0] in ("mapping", "object"):
        return any(opaque(v, of) for _, v in s[2])
    return False


class Watch:
    """What happens at each call made from outside the library."""

    judge = None  # object with before(call) and after(call)

    def __init__(self):
        self.depth = 0
        self.pid = os.getpid()


W = Watch()


class Call:
    __slots__ = ("fn", "args", "kwargs", "cls", "name", "bound", "changes", "out", "error", "seconds", "memo")

    @property
    def label(self):
        return f"{self.cls}.{self.name}" if self.cls else self.name


def _hook(fn, cls, name, bound, changes):
    @functools.wraps(fn)
    def hooked(*args, **kwargs):
        judge = W.judge
        if judge is None or W.depth:
            return fn(*args, **kwargs)
        W.depth += 1
        try:
            call = Call()
            call.fn, call.args, call.kwargs = fn, args, kwargs
            call.cls, call.name, call.bound, call.changes = cls, name, bound, changes
            call.out = call.error = None
            call.memo = {}
            judge.before(call)
            start = time.process_time()
            try:
                call.out = fn(*args, **kwargs)
            except Exception as e:
                call.error = e
            call.seconds = time.process_time() - start
            judge.after(call)
            if call.error is not None:
                raise call.error
            return call.out
        finally:
            W.depth -= 1

    hooked.__gmon__ = True
    return hooked


DUNDERS = ("__init__", "__getitem__", "__call__", "__len__")


def _changes(cls, name):
    for c in cls.__mro__:
        if name in CHANGES.get(c.__name__, ()):
            return True
    return False


def install():
    """Hook the public interface of glimpse, in place."""
    import glimpse

    modules = [glimpse]
    for i in pkgutil.walk_packages(glimpse.__path__, "glimpse."):
        modules.append(importlib.import_module(i.name))
    n = 0
    replaced = {}
    for mod in modules:
        for name, o in list(vars(mod).items()):
            if getattr(o, "__module__", None) != mod.__name__ or name.startswith("_"):
                continue
            if inspect.isfunction(o):
                if not hasattr(o, "__gmon__") and mod.__name__ != "glimpse.config":
                    replaced[o] = _hook(o, None, f"{mod.__name__.split('.')[-1]}.{name}", False, False)
                    n += 1
            elif inspect.isclass(o) and not issubclass(o, dict):
                for k, v in list(vars(o).items()):
                    if k.startswith("_") and k not in DUNDERS:
                        continue
                    changes = k == "__init__" or _changes(o, k)
                    if isinstance(v, property):
                        fget = _hook(v.fget, o.__name__, k, True, None)
                        fset = v.fset and _hook(v.fset, o.__name__, k + "=", True, True)
                        setattr(o, k, property(fget, fset, v.fdel, v.__doc__))
                    elif isinstance(v, classmethod):
                        setattr(o, k, classmethod(_hook(v.__func__, o.__name__, k, False, False)))
                    elif isinstance(v, staticmethod):
                        setattr(o, k, staticmethod(_hook(v.__func__, o.__name__, k, False, False)))
                    elif inspect.isfunction(v):
                        setattr(o, k, _hook(v, o.__name__, k, True, changes))
                    else:
                        continue
                    n += 1
    # Wherever a function was imported to
    for mod in modules:
        for name, o in list(vars(mod).items()):
            if inspect.isfunction(o) and o in replaced:
                setattr(mod, name, replaced[o])
    return n


def sources():
    """Workloads of the other properties: {property: [workload, ...]}."""
    saved = list(core.WORKLOADS), {k: copy.copy(v) for k, v in core.META.items()}
    found = {}
    here = os.path.join(core.ROOT, "checks")
    for f in sorted(os.listdir(here)):
        if not f.endswith(".py") or f[0] == "_" or f.startswith("p0"):
            continue
        core.WORKLOADS[:] = []
        importlib.import_module("checks." + f[:-3])
        found[f[:-3].upper()] = list(core.WORKLOADS)
    core.WORKLOADS[:] = saved[0]
    core.META.clear()
    core.META.update(saved[1])
    return found


def run(w, rng, judge, tier):
    """Run a workload of another property, whose own judgements are ignored."""
    m = core.Monitor(int(rng.integers(2**31)))
    m.tier = tier
    m.index = int(rng.integers(1000))
    W.judge = judge
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            w["fn"](rng, m)
    except core.StopCase:
        pass
    except (core.Inconclusive, MemoryError):
        judge.m.count("inconclusive workloads")
    except Exception:
        judge.m.count("workloads ended by an error")
    finally:
        W.judge = None
    return m
