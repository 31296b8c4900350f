import gc
import hashlib
import locale
import logging
import multiprocessing
import os
import pathlib
import random
import signal
import sys
import tempfile
import threading
import time
import warnings
import cv2
import matplotlib.pyplot
import numpy as np
from osgeo import gdal, osr
import glimpse.config
from gmon import META, workload, watch
from gmon.core import scratch

META["rule"] = (
    "A case is a randomly chosen workload of another property, run while every public function, method, property and "
    "constructor of glimpse is hooked. The hooks judge no value: they compare the process (open files, child processes, threads, "
    "temporary files, settings of this and other libraries, random number generators, figures) and the folders of the files "
    "named before and after the call, whether it succeeds or fails, and once more when the case is over."
)
META["require"] = {
    "judged:settings": 50000, "judged:open-files": 50000, "judged:processes": 50000, "judged:random-numbers": 40000, "judged:figures": 30000,
    "judged:folder": 1500, "judged:file-contents": 1000, "failed calls": 500, "judged:case-over": 2000, "calls of several processes": 40,
}
META["assumptions"] = [
    "files which libraries open once and keep (fonts, projections, shared memory) and queues of killed workers are not judged",
    "functions which draw random numbers by purpose: motion models, trackers, ransac",
    "functions which are there to write may write to the folder they are told to",
    "calls the library makes of itself are not judged",
]
CASES = {"C03": 60, "G03": 60, "O02": 50, "O03": 30, "G06": 500, "I01": 400, "I02": 300, "T04": 150, "T03": 150, "O05": 150, "X01": 250, "S01": 300, "H04": 300, "G09": 300}

watch.install()
SOURCES = watch.sources()
RANDOM = {"Motion", "CartesianMotion", "CylindricalMotion", "TangentCartesianMotion", "TangentCylindricalMotion", "Tracker"}
WRITES = ("write", "insert", "to_json", "dump", "build_keypoints", "build_matches", "from_", "animate", "track")


def listing(folder):
    try:
        return sorted(os.listdir(folder))
    except OSError:
        return None


def digest(path):
    try:
        if os.path.getsize(path) > 5_000_000:
            return None
        with open(path, "rb") as fp:
            return hashlib.md5(fp.read()).hexdigest()
    except OSError:
        return None


def opened():
    """What the open files of the process are."""
    out = {}
    for fd in os.listdir("/proc/self/fd"):
        try:
            out[int(fd)] = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            pass
    return out


def ours(name):
    """Not what libraries open once and keep."""
    return not (name.startswith(("/proc", "/dev/", "pipe:")) or name.endswith((".db", ".ttf")))


def threads():
    # Queues of multiprocessing may be left waiting for a worker that was killed
    return {t.name for t in threading.enumerate() if t.name != "QueueFeederThread"}


def changed(before):
    now = opened()
    left = {k: v for k, v in now.items() if before.get(k) != v and ours(v)}
    lost = {k: v for k, v in before.items() if k not in now and ours(v)}
    return left, lost


def settled(fn, seconds=5):
    """What is left once what was told to end had time to do so."""
    out = fn()
    end = time.time() + seconds
    while any(out) and time.time() < end:
        gc.collect()
        time.sleep(0.02)
        out = fn()
    return out


def children():
    out = set()
    for t in os.listdir("/proc/self/task"):
        try:
            with open(f"/proc/self/task/{t}/children") as fp:
                out |= set(fp.read().split())
        except OSError:
            pass
    return out


def settings(full=False):
    """Settings of this process and the libraries."""
    return {
        "folder": os.getcwd(),
        "environment": hash(frozenset(os.environ.items())),
        "warnings": (tuple(map(str, warnings.filters)), warnings.showwarning),
        "floating point errors": tuple(sorted(np.geterr().items())),
        "print options": str(np.get_printoptions()),
        "gdal exceptions": gdal.GetUseExceptions(),
        "plot parameters": hash(str(dict(matplotlib.rcParams))) if full else None,
        "opencv threads": cv2.getNumThreads(),
        "search path": tuple(sys.path),
        "recursion": sys.getrecursionlimit(),
        "signals": tuple(signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD)),
        "output": (id(sys.stdout), id(sys.stderr)),
        "mask": _umask(),
        "gdal": (gdal.GetCacheMax(), osr.GetUseExceptions()) + tuple(gdal.GetConfigOption(k) for k in GDAL),
        "locale": locale.setlocale(locale.LC_ALL),
        "collection": gc.isenabled(),
        "logging": (logging.root.level, logging.root.disabled, logging.root.manager.disable, len(logging.root.handlers)),
        "time zone": time.tzname,
        "parallel": multiprocessing.get_start_method(allow_none=True) or "fork",
        "options": tuple((k, v) for k, v in sorted(vars(glimpse.config).items()) if not k.startswith("_")),
        "opencv": (cv2.useOptimized(), cv2.ocl.useOpenCL()),
        "figure library": matplotlib.get_backend() if full else None,
    }


# Settings of GDAL that change how all files are read and written
GDAL = (
    "GDAL_NUM_THREADS", "GDAL_CACHEMAX", "GDAL_PAM_ENABLED", "GDAL_DISABLE_READDIR_ON_OPEN", "CPL_DEBUG", "CPL_LOG", "CPL_TMPDIR", "GDAL_TIFF_INTERNAL_MASK",
    "GTIFF_FORCE_RGBA", "GDAL_GEOREF_SOURCES", "OSR_DEFAULT_AXIS_MAPPING_STRATEGY", "GDAL_DATA", "PROJ_LIB", "GDAL_FILENAME_IS_UTF8",
)


def _umask():
    with open("/proc/self/status") as fp:
        for line in fp:
            if line.startswith("Umask"):
                return line


def generators():
    a = np.random.get_state()
    return a[0], a[1].tobytes(), a[2:], hash(random.getstate())


def named(call):
    """Files named in a call."""
    out = set()
    def look(v, depth=0):
        if isinstance(v, (str, pathlib.Path)) and len(str(v)) < 300:
            v = str(v)
            if os.sep in v and os.path.isabs(v) and os.path.isdir(os.path.dirname(v)):
                out.add(v)
        elif isinstance(v, (list, tuple)) and depth < 2:
            for i in v[:20]:
                look(i, depth + 1)
        elif watch.kind(v) in ("Image", "Exif") and isinstance(getattr(v, "path", None), (str, pathlib.Path)):
            look(v.path)
    for v in list(call.args) + list(call.kwargs.values()):
        look(v)
    return out


class Judge:
    def __init__(self, m, temporary):
        self.m, self.temporary = m, temporary
        self.n, self.coin = 0, random.Random(0)

    def before(self, call):
        n = call.memo
        self.n += 1
        if self.n > 300 and self.coin.random() > 0.1:
            return
        n["files"] = opened()
        n["children"], n["threads"] = children(), threads()
        n["settings"] = settings()
        n["random"] = generators()
        n["figures"] = tuple(matplotlib.pyplot.get_fignums())
        n["temporary"] = listing(self.temporary)
        n["named"] = {p: (listing(os.path.dirname(p)), digest(p)) for p in named(call)}

    def after(self, call):
        m, n, label = self.m, call.memo, call.label
        m.count("calls")
        if not n:
            return
        if call.error is not None:
            m.count("failed calls")
        if "parallel" in call.kwargs and call.kwargs["parallel"]:
            m.count("calls of several processes")
        now = settings()
        m.count("judged:settings")
        for k, v in n["settings"].items():
            if now[k] != v:
                m.fail(f"settings/{label}", setting=k, before=v, after=now[k])
        m.count("judged:open-files")
        # An error keeps its files open until it is handled
        if call.error is None:
            left, lost = settled(lambda: changed(n["files"]))
            if left or lost:
                m.fail(f"open-files/{label}", left=left, lost=lost)
        m.count("judged:processes")
        left = settled(lambda: (children() - n["children"],))[0]
        if left:
            m.fail(f"processes/{label}", left=left)
        if settled(lambda: (threads() - n["threads"],))[0]:
            m.fail(f"threads/{label}", left=threads())
        if call.cls not in RANDOM and not any(c.__name__ in RANDOM for c in type(call.args[0]).__mro__ if call.args) and "ransac" not in label:
            m.count("judged:random-numbers")
            if generators() != n["random"]:
                m.fail(f"random-numbers/{label}")
        if not any(w in call.name for w in ("plot", "animate", "track")):
            m.count("judged:figures")
            if tuple(matplotlib.pyplot.get_fignums()) != n["figures"]:
                m.fail(f"figures/{label}", before=n["figures"], after=matplotlib.pyplot.get_fignums())
        m.count("judged:temporary-files")
        if listing(self.temporary) != n["temporary"]:
            m.fail(f"temporary-files/{label}", before=n["temporary"], after=listing(self.temporary))
        writes = any(w in call.name for w in WRITES) or "write" in str(call.kwargs.keys()) or "path" in call.kwargs
        for p, (names, contents) in n["named"].items():
            if writes:
                continue
            m.count("judged:folder")
            if listing(os.path.dirname(p)) != names:
                m.fail(f"folder/{label}", path=p, before=names, after=listing(os.path.dirname(p)))
            if contents is not None:
                m.count("judged:file-contents")
                if digest(p) != contents:
                    m.fail(f"file-contents/{label}", path=p)


def _make(prop, ws):
    def fn(rng, m):
        w = ws[int(rng.integers(len(ws)))]
        m.case(workload=w["name"], case=int(rng.integers(2**31)))
        temporary = scratch()
        scratch()
        was = tempfile.tempdir, os.environ.get("TMPDIR")
        tempfile.tempdir = temporary
        os.environ["TMPDIR"] = temporary
        gc.collect()
        files, kids, figs, now = opened(), children(), matplotlib.pyplot.get_fignums(), settings(True)
        try:
            watch.run(w, rng, Judge(m, temporary), m.tier)
            gc.collect()
            m.count("judged:case-over")
            left = settled(lambda: changed(files)[:1])[0]
            if left:
                m.fail("case-over/open-files", left=left)
            left = settled(lambda: (children() - kids,))[0]
            if left:
                m.fail("case-over/processes", left=left)
            after = settings(True)
            for k in now:
                if k not in ("warnings", "folder", "options") and now[k] != after[k]:
                    m.fail("case-over/settings", setting=k, before=now[k], after=after[k])
        finally:
            tempfile.tempdir = was[0]
            if was[1] is None:
                os.environ.pop("TMPDIR", None)
            else:
                os.environ["TMPDIR"] = was[1]
            matplotlib.pyplot.close("all")
    workload(quick=CASES.get(prop, 100), thorough=8 * CASES.get(prop, 100), name=prop)(fn)


for _p, _ws in SOURCES.items():
    _make(_p, _ws)
