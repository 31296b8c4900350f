import contextlib
import hashlib
import json
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

# --- environment: must happen before numpy / cv2 are imported -----------------
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ.setdefault("MPLBACKEND", "agg")
sys.dont_write_bytecode = True
REPO = os.environ.get("GLIMPSE_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))

import numpy as np  # noqa: E402

from . import defaults  # noqa: E402

WORKLOADS = []
META = {"prop": None, "rule": "", "require": {}, "assumptions": []}
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_S = 150


class StopCase(Exception):
    """Raised by Monitor.must to end a case after a recorded violation."""


class Inconclusive(Exception):
    """The case could not be run (resources), which decides nothing."""


class NoProgress(BaseException):
    """A case used far more CPU time than it ever does."""


def workload(quick, thorough=None, name=None):
    """Register a workload with its number of cases per tier."""

    def deco(fn):
        WORKLOADS.append(
            {
                "name": name or fn.__name__,
                "fn": fn,
                "quick": quick,
                "thorough": thorough if thorough is not None else quick * 15,
            }
        )
        return fn

    return deco


_SCRATCH = [None]


def scratch():
    """A per-process scratch directory, removed at exit of the worker."""
    if _SCRATCH[0] is None or _SCRATCH[0][0] != os.getpid():
        base = tempfile.mkdtemp(prefix="gmon-")
        _SCRATCH[0] = (os.getpid(), base)
    d = tempfile.mkdtemp(dir=_SCRATCH[0][1])
    return d


def _clean_scratch():
    if _SCRATCH[0] is not None and _SCRATCH[0][0] == os.getpid():
        shutil.rmtree(_SCRATCH[0][1], ignore_errors=True)
        _SCRATCH[0] = None


def short(x, limit=400):
    """Compact printable form of a value."""
    if isinstance(x, np.ndarray):
        s = np.array2string(x, precision=17, threshold=40, max_line_width=200)
        s = f"array{x.shape}{x.dtype}:{s}"
    else:
        try:
            s = repr(x)
        except Exception as e:  # pragma: no cover
            s = f"<unprintable {type(x).__name__}: {e}>"
    s = s.replace("\n", " ")
    return s if len(s) <= limit else s[:limit] + "..."


def snapshot(x, depth=0):
    """Deep value snapshot of arguments (arrays, sequences, dicts)."""
    if isinstance(x, np.ndarray):
        return ("nd", x.dtype.str, x.shape, x.copy())
    if depth > 4:
        return ("id", id(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snapshot(i, depth + 1) for i in x])
    if isinstance(x, dict):
        return ("dict", [(k, snapshot(v, depth + 1)) for k, v in x.items()])
    if isinstance(x, (int, float, str, bytes, bool, type(None))):
        return ("v", repr(x))
    return ("id", id(x))


def same_snapshot(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "nd":
        if a[1] != b[1] or a[2] != b[2]:
            return False
        if a[3].dtype.kind in "fc":
            return np.array_equal(a[3], b[3], equal_nan=True)
        return bool(np.all(a[3] == b[3]))
    if a[0] in ("list", "tuple"):
        return len(a[1]) == len(b[1]) and all(map(same_snapshot, a[1], b[1]))
    if a[0] == "dict":
        return len(a[1]) == len(b[1]) and all(
            ka == kb and same_snapshot(va, vb)
            for (ka, va), (kb, vb) in zip(a[1], b[1])
        )
    return a[1] == b[1]


class Monitor:
    """Observes one case: counts events and records violations."""

    def __init__(self, seed=0):
        self.events = {}
        self.violations = []
        self.desc = None
        self.nontrivial = True
        self._extra = []
        self._coin = random.Random(seed)

    # -- observations
    def count(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def case(self, **desc):
        """Describe the case (recorded in evidence and replay files)."""
        if self.desc is None:
            self.desc = {}
        self.desc.update({k: short(v, 300) for k, v in desc.items()})

    def trivial(self):
        self.nontrivial = False

    # -- judgements
    def fail(self, mech, **detail):
        if len(self.violations) < 50:
            self.violations.append(
                (mech, {k: short(v, 1500) for k, v in detail.items()})
            )
        return False

    def check(self, ok, mech, **detail):
        self.count("judged:" + mech)
        if isinstance(ok, np.ndarray):
            ok = bool(ok.all())
        if not ok:
            self.fail(mech, **detail)
            return False
        return True

    def must(self, ok, mech, **detail):
        """As check, but ends the case if it fails."""
        if not self.check(ok, mech, **detail):
            raise StopCase()

    def close(self, actual, expected, mech, rtol=1e-9, atol=1e-9, **detail):
        """Arrays equal in shape and, within tolerance, in value (NaN == NaN)."""
        self.count("judged:" + mech)
        try:
            a = np.asarray(actual, dtype=float)
            b = np.asarray(expected, dtype=float)
        except (TypeError, ValueError):
            return self.fail(mech, actual=actual, expected=expected, **detail)
        if a.shape != b.shape:
            return self.fail(
                mech + "/shape", actual=a, expected=b, shapes=(a.shape, b.shape), **detail
            )
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        if not ok.all():
            bad = np.argwhere(~ok)[:5]
            i = tuple(bad[0]) if a.ndim else ()
            return self.fail(
                mech,
                where=bad.tolist(),
                nbad=int((~ok).sum()),
                first=(float(a[i]), float(b[i])),
                actual=a,
                expected=b,
                **detail,
            )
        return True

    def equal(self, actual, expected, mech, **detail):
        """Exact equality, arrays included (NaN == NaN)."""
        self.count("judged:" + mech)
        a, b = actual, expected
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            try:
                a, b = np.asarray(a), np.asarray(b)
                ok = a.shape == b.shape
                if ok:
                    if a.dtype.kind in "fc" and b.dtype.kind in "fc":
                        ok = np.array_equal(a, b, equal_nan=True)
                    else:
                        ok = bool(np.all(a == b))
            except Exception:
                ok = False
        else:
            try:
                ok = bool(a == b)
            except Exception:
                ok = False
        if not ok:
            return self.fail(mech, actual=actual, expected=expected, **detail)
        return True

    def raises(self, exc, fn, mech, **detail):
        """fn() must raise exc (a type or tuple of types)."""
        self.count("judged:" + mech)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = fn()
        except exc:
            return True
        except StopCase:
            raise
        except Exception as e:
            return self.fail(mech, got=f"{type(e).__name__}: {e}", **detail)
        return self.fail(mech, got="no error", returned=r, **detail)

    def returns(self, fn, mech, **detail):
        """fn() must not raise; returns (ok, value)."""
        self.count("judged:" + mech)
        try:
            return True, fn()
        except (StopCase, Inconclusive):
            raise
        except MemoryError:
            raise Inconclusive("MemoryError")
        except Exception as e:
            self.fail(
                mech,
                got=f"{type(e).__name__}: {e}",
                tb="".join(traceback.format_exc()[-1500:]),
                **detail,
            )
            return False, None

    def call(self, fn, *args, **kwargs):
        """Call fn and check that it did not modify its arguments.

        Half of the arguments that equal their documented default are left out.
        """
        given = len(kwargs)
        kwargs = defaults.leave_out(fn, kwargs, lambda: self._coin.random() < 0.5)
        self.count("defaults left out", given - len(kwargs))
        before = snapshot((args, kwargs))
        try:
            out = fn(*args, **kwargs)
        finally:
            self.count("judged:arguments-unchanged")
            self.count("calls")
            if not same_snapshot(before, snapshot((args, kwargs))):
                self.fail(
                    "arguments-unchanged",
                    function=getattr(fn, "__qualname__", str(fn)),
                    args=args,
                    kwargs=kwargs,
                    before=before,
                )
        return out


def case_seed(prop, wname, seed, index):
    h = hashlib.sha256(f"{prop}|{wname}|{seed}|{index}".encode()).digest()
    return int.from_bytes(h[:8], "little")


def _on_cpu(signum, frame):
    raise NoProgress()


def run_case(prop, w, seed, index, tier):
    """Run one case; returns a plain dict."""
    s = case_seed(prop, w["name"], seed, index)
    rng = np.random.default_rng(s)
    np.random.seed(s % (2**32))
    random.seed(s)
    m = Monitor(s)
    m.tier = tier
    m.index = index
    status = "ok"
    cwd = os.getcwd()
    signal.signal(signal.SIGPROF, _on_cpu)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            w["fn"](rng, m)
    except StopCase:
        pass
    except Inconclusive as e:
        status = f"inconclusive: {e}"
    except NoProgress:
        m.fail("no-progress", cpu_seconds=CASE_CPU_S, tb=traceback.format_exc()[-2000:])
    except MemoryError:
        status = "inconclusive: MemoryError"
    except Exception as e:
        if isinstance(e, OSError) and e.errno in (28, 12, 24, 23, 11):
            status = f"inconclusive: {e}"
        else:
            m.fail(
                f"exception/{type(e).__name__}",
                error=str(e)[:500],
                tb=traceback.format_exc()[-2500:],
            )
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir(cwd)
    desc = m.desc or {}
    return {
        "workload": w["name"],
        "index": index,
        "seed": seed,
        "desc": desc,
        "hash": hashlib.sha1(
            json.dumps([w["name"], desc], sort_keys=True).encode()
        ).hexdigest()[:16],
        "nontrivial": m.nontrivial,
        "events": m.events,
        "violations": m.violations,
        "status": status,
    }


class Stats:
    def __init__(self):
        self.events = {}
        self.per = {}
        self.hashes = set()
        self.samples = []
        self.violations = []
        self.inconclusive = []
        self.n = 0

    def add(self, r):
        self.n += 1
        p = self.per.setdefault(r["workload"], {"cases": 0, "judgements": 0})
        p["cases"] += 1
        for k, v in r["events"].items():
            self.events[k] = self.events.get(k, 0) + v
            if k.startswith("judged:"):
                p["judgements"] += v
        if r["nontrivial"]:
            self.hashes.add(r["hash"])
        if r["index"] < 1 and len(self.samples) < 12:
            self.samples.append({"workload": r["workload"], **r["desc"]})
        if r["status"] != "ok":
            self.inconclusive.append((r["workload"], r["index"], r["status"]))
        for mech, detail in r["violations"]:
            self.violations.append(
                {
                    "mechanism": mech,
                    "workload": r["workload"],
                    "index": r["index"],
                    "seed": r["seed"],
                    "case": r["desc"],
                    "detail": detail,
                }
            )

    def merge(self, o):
        self.n += o.n
        for k, v in o.events.items():
            self.events[k] = self.events.get(k, 0) + v
        for k, v in o.per.items():
            p = self.per.setdefault(k, {"cases": 0, "judgements": 0})
            for kk in v:
                p[kk] += v[kk]
        self.hashes |= o.hashes
        self.samples += o.samples
        self.violations += o.violations
        self.inconclusive += o.inconclusive


def _worker(rank, nproc, jobs, prop, seed, tier, deadline, conn):
    st = Stats()
    skipped = 0
    try:
        try:
            import cv2

            cv2.setNumThreads(1)
        except Exception:
            pass
        try:
            from osgeo import gdal

            gdal.PushErrorHandler("CPLQuietErrorHandler")
        except Exception:
            pass
        for k, (w, i) in enumerate(jobs):
            if k % nproc != rank:
                continue
            if time.time() > deadline or len(st.violations) > 400:
                skipped += 1
                continue
            st.add(run_case(prop, w, seed, i, tier))
    finally:
        _clean_scratch()
    conn.write(pickle.dumps((st, skipped)))
    conn.close()


def run_all(prop, seed, tier, nproc, budget_s, only=None):
    jobs = []
    ws = [w for w in WORKLOADS if only is None or w["name"] in only]
    # Interleave workloads so a deadline cuts all of them evenly
    todo = []
    for w in ws:
        n = w[tier]
        for i in range(n):
            todo.append(((i + 0.5) / n, w["name"], w, i))
    todo.sort(key=lambda t: (t[0], t[1]))
    jobs = [(t[2], t[3]) for t in todo]
    deadline = time.time() + budget_s
    stats, skipped, dead = Stats(), 0, []
    procs = []
    sys.stdout.flush()
    for rank in range(nproc):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                _worker(
                    rank, nproc, jobs, prop, seed, tier, deadline, os.fdopen(wfd, "wb")
                )
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wfd)
        procs.append((pid, os.fdopen(r, "rb")))
    for pid, fd in procs:
        data = fd.read()
        fd.close()
        _, status = os.waitpid(pid, 0)
        if status != 0 or not data:
            dead.append((pid, status))
            continue
        st, sk = pickle.loads(data)
        stats.merge(st)
        skipped += sk
    return stats, skipped, dead


def load_known(path=None):
    """Known findings: lines `finding: property=<id> mechanism=<m> <text>`."""
    path = path or os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    found = []
    if os.path.exists(path):
        with open(path) as fp:
            for line in fp:
                if line.startswith("finding: "):
                    a, b, text = line[len("finding: ") :].rstrip("\n").split(" ", 2)
                    found.append((a.split("=", 1)[1], b.split("=", 1)[1], text))
    return found
