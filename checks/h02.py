import contextlib
import datetime
import os
import time
import warnings
import numpy as np
from gmon import META, workload, gen
from glimpse import Camera, Image, Observer, Tracker, helpers

META["rule"] = (
    "A case is a random set of datetimes (microseconds to years apart, clustered, repeated, across daylight-saving "
    "changes) selected, snapped, ranged over or paired, inside a process whose local time zone is drawn at random. "
    "The oracle does integer arithmetic on microseconds. Non-trivial if there is more than one datetime."
)
META["require"] = {
    "time zones with daylight saving": 500, "selections": 300, "snapped selections": 200, "single datetimes": 30, "pairs": 5000,
    "ranges": 200, "matches": 1000, "rejected datetimes": 100, "spans of a clock change": 100,
}
META["assumptions"] = ["naive (or all-UTC) datetimes; selection snaps to targets between start and end (when given), as implemented and shown in its examples"]

TZ = ("UTC", "CET-1CEST,M3.5.0,M10.5.0/3", "AKST9AKDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "IST-5:30", "XYZ+11:15")
US = datetime.timedelta(microseconds=1)
EPOCH = datetime.datetime(1970, 1, 1)


@contextlib.contextmanager
def _zone(rng, m):
    tz = gen.pick(rng, TZ)
    old = os.environ.get("TZ")
    os.environ["TZ"] = tz
    time.tzset()
    m.count("time zones with daylight saving", "," in tz)
    m.case(tz=tz)
    try:
        yield
    finally:
        if old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = old
        time.tzset()


def us(t):
    return (t - EPOCH.replace(tzinfo=t.tzinfo)) // US


def _times(rng, n, unit=None):
    """n random datetimes in ascending order, often around clock changes."""
    base = gen.pick(rng, (
        datetime.datetime(2013, 3, 31, 1, 30), datetime.datetime(2013, 10, 27, 2, 10), datetime.datetime(2013, 3, 10, 1, 59),
        datetime.datetime(2013, 11, 3, 1, 15), datetime.datetime(2013, 9, 29, 1, 50), datetime.datetime(2020, 1, 1),
        datetime.datetime(2016, 2, 28, 23, 59, 59, 999999), datetime.datetime(2014, 10, 13, 2, 3, 36, 280000)))
    unit = unit or int(gen.pick(rng, (1, 1000, 10**6, 60 * 10**6, 3600 * 10**6, 24 * 3600 * 10**6)))
    k = np.sort(rng.integers(-20, 40, n))
    t = [base + US * (int(v) * unit + (int(rng.integers(0, 3)) if rng.random() < 0.1 else 0)) for v in k]
    return sorted(t), unit


def _change(m, t):
    m.count("spans of a clock change", len(t) > 1 and any(t[0] < c < t[-1] for c in (datetime.datetime(2013, 3, 31, 2), datetime.datetime(2013, 10, 27, 3), datetime.datetime(2013, 3, 10, 2), datetime.datetime(2013, 11, 3, 2), datetime.datetime(2013, 9, 29, 2))))


@workload(quick=600, thorough=10000)
def distances(rng, m):
    with _zone(rng, m):
        x, unit = _times(rng, int(rng.integers(1, 15)))
        y, _ = _times(rng, int(rng.integers(1, 15)), unit)
        if rng.random() < 0.5:
            y = x[: len(y)] if rng.random() < 0.3 else [t + US * int(rng.integers(-5, 6)) * unit for t in x]
        for s in (x, y):
            rng.shuffle(s)
        if rng.random() < 0.2:
            x, y = [[t.replace(tzinfo=datetime.timezone.utc) for t in s] for s in (x, y)]
        m.case(x=x, y=y)
        _change(m, sorted(t.replace(tzinfo=None) for t in x + y))
        form = gen.pick(rng, (list, tuple, np.array))
        out = np.asarray(m.call(helpers.pairwise_distance_datetimes, form(x), form(y)))
        m.count("pairs", out.size)
        e = np.array([[abs(us(a) - us(b)) for b in y] for a in x]) / 1e6
        m.close(out, e, "elapsed-seconds", rtol=1e-9, atol=1e-9)
        m.equal(out == 0, e == 0, "zero-only-if-equal")


@workload(quick=400, thorough=6000)
def ranges(rng, m):
    with _zone(rng, m):
        t, unit = _times(rng, 2)
        a, b = t
        step = US * int(gen.pick(rng, (1, 2, 3, 7))) * unit
        if rng.random() < 0.4:
            b = a + int(rng.integers(0, 30)) * step
        if (b - a) // step > 3000:
            step = (b - a) / 7 + US
        if rng.random() < 0.15 and a < b:
            a, b, step = b, a, -step
        m.case(start=a, stop=b, step=step)
        m.count("ranges")
        _change(m, sorted((a, b)))
        out = m.call(helpers.datetime_range, a, b, step)
        s = step // US
        e = [a + US * k * s for k in range((us(b) - us(a)) // s + 1)]
        m.equal(list(out), e, "every-step", start=a, stop=b, step=step)
        m.equal(list(helpers.datetime_range(b, a, step)) if a != b else [], [], "none-backwards")


@workload(quick=900, thorough=15000)
def selection(rng, m):
    with _zone(rng, m):
        t, unit = _times(rng, int(gen.pick(rng, (1, 1, 2, 3, 5, 10, 20))))
        U = [us(v) for v in t]
        _change(m, t)
        m.count("single datetimes", len(t) == 1)
        kw = {}
        span, unit_ = U[-1] - U[0], unit

        def bound():
            return EPOCH + US * (int(gen.pick(rng, U)) + int(rng.integers(-3, 4)) * unit_ + int(gen.pick(rng, (0, 0, 0, -1, 1))))

        if rng.random() < 0.5:
            kw["start"] = bound()
        if rng.random() < 0.5:
            kw["end"] = bound()
        origin = EPOCH
        if rng.random() < 0.6:
            snap = unit * int(rng.integers(1, 12)) // int(gen.pick(rng, (1, 1, 2, 3)))
            snap = max(snap, 1, span // 2000)
            kw["snap"] = US * int(snap)
            if rng.random() < 0.5:
                kw["maxdt"] = US * int(snap * gen.pick(rng, (0, 0.1, 0.25, 0.5, 1)))
            if rng.random() < 0.5:
                origin = kw["origin"] = t[0] + US * int(rng.integers(-50, 50)) * max(1, unit // 3)
        m.case(datetimes=t, **kw)
        form = gen.pick(rng, (list, tuple, np.array))
        if "start" in kw and "end" in kw and kw["start"] > kw["end"]:
            m.count("rejected datetimes")
            m.raises(ValueError, lambda: helpers.select_datetimes(form(t), **kw), "start-after-end-raises")
            return
        margin = kw["snap"] // US if "snap" in kw else 0
        lo = us(kw["start"]) if "start" in kw else U[0] - margin
        hi = us(kw["end"]) if "end" in kw else U[-1] + margin
        if lo > hi:
            # selects nothing, or is rejected
            try:
                out = helpers.select_datetimes(form(t), **kw)
            except ValueError:
                return
            m.check(not np.any(out), "nothing-in-empty-interval")
            return
        out = np.asarray(m.call(helpers.select_datetimes, form(t), **kw))
        m.must(out.shape == (len(t),) and out.dtype == bool, "boolean-mask", got=out)
        m.count("selections")
        inb = np.array([("start" not in kw or v >= us(kw["start"])) and ("end" not in kw or v <= us(kw["end"])) for v in U])
        m.check(not (out & ~inb).any(), "only-within-bounds", got=out, inb=inb)
        if "snap" not in kw:
            m.equal(out, inb, "all-within-bounds")
            return
        m.count("snapped selections")
        s = kw["snap"] // US
        # half a snap is rounded to the microsecond
        tol = kw["maxdt"] // US if "maxdt" in kw else (kw["snap"] * 0.5) // US
        first = lo + (us(origin) - lo) % s
        allowed, required = np.zeros(len(t), bool), []
        A = np.array(U, dtype=object)
        for g in range(first, hi + 1, s):
            d = np.abs(A - g)
            k = np.where(d == d.min())[0]
            if d.min() <= tol:
                allowed[k] = True
                # repeated datetimes or ties: any one of them
                required.append(k)
        m.check(not (out & ~allowed).any(), "only-nearest-within-tolerance", got=out, allowed=allowed)
        for k in required:
            m.check(out[k].any() or not inb[k].all(), "nearest-is-selected", targets=k, got=out)


def _tracker(rng, m, nobs):
    cam = Camera(imgsz=(10, 10), f=10)
    unit = None
    obs, all_ = [], []
    for _ in range(nobs):
        while True:
            t, unit = _times(rng, int(rng.integers(2, 15)), unit)
            t = sorted(set(t))
            if len(t) > 1:
                break
        obs.append(Observer([Image("none", cam=cam, datetime=v) for v in t]))
        all_.append(t)
    return Tracker(obs), all_, unit


@workload(quick=700, thorough=10000)
def matching(rng, m):
    with _zone(rng, m):
        T, all_, unit = _tracker(rng, m, int(rng.integers(1, 4)))
        pool = sorted(set(v for t in all_ for v in t))
        m.equal(list(T.datetimes), pool, "union-of-observer-datetimes")
        _change(m, pool)
        n = int(rng.integers(1, 15))
        dts = [gen.pick(rng, pool) + US * (int(gen.pick(rng, (0, 0, 0, 1, -1, 2, 30))) * int(gen.pick(rng, (1, unit)))) for _ in range(n)]
        maxdt = US * int(gen.pick(rng, (0, 0, 1, unit, 2 * unit, unit // 2)))
        if rng.random() < 0.1:
            maxdt = -maxdt
        tol = abs(maxdt // US)
        m.case(observers=all_, datetimes=dts, maxdt=maxdt)
        form = gen.pick(rng, (list, tuple, np.array))
        out = m.call(T.match_datetimes, form(dts), maxdt=maxdt)
        m.must(np.shape(out) == (n, len(all_)), "match-shape", got=np.shape(out))
        for i, t in enumerate(dts):
            for j, o in enumerate(all_):
                d = [abs(us(t) - us(v)) for v in o]
                k = out[i, j]
                m.count("matches")
                if min(d) > tol:
                    m.check(k is None, "no-match-beyond-maximum", got=k, distance=min(d), datetime=t)
                else:
                    m.check(k is not None and d[int(k)] == min(d), "nearest-image-matched", got=k, distances=d)
        # parsing
        order = gen.pick(rng, ("up", "down", "any"))
        seq = sorted(dts) if order == "up" else sorted(dts, reverse=True) if order == "down" else dts
        mono = seq == sorted(seq) or seq == sorted(seq, reverse=True)
        uniq = [v for k, v in enumerate(seq) if k == 0 or v != seq[k - 1]]
        keep = [v for v in uniq if min(abs(us(v) - us(p)) for p in pool) <= tol]
        if not mono or len(keep) < 2:
            m.count("rejected datetimes")
            m.raises(ValueError, lambda: T.parse_datetimes(form(seq), maxdt=maxdt), "invalid-datetimes-raise", seq=seq)
            return
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            got = T.parse_datetimes(form(seq), maxdt=maxdt)
        m.equal(list(got), keep, "kept-datetimes")
        dropped = (len(uniq) < len(seq)) + (len(keep) < len(uniq))
        m.equal(len([v for v in w if issubclass(v.category, UserWarning)]) >= dropped, True, "dropping-warns", warnings=[str(v.message) for v in w])
        if not dropped:
            m.check(not [v for v in w if "ropping" in str(v.message)], "no-warning-when-nothing-dropped")


@workload(quick=400, thorough=6000)
def nearest(rng, m):
    kind = gen.pick(rng, ("float", "int", "datetime"))
    n, k = int(gen.pick(rng, (1, 1, 2, 3, 8, 30))), int(rng.integers(1, 20))
    if kind == "datetime":
        x, unit = _times(rng, n)
        y, _ = _times(rng, k, unit)
        d = [[abs(us(a) - us(b)) for a in x] for b in y]
    else:
        x = np.sort(rng.integers(-20, 20, n) if kind == "int" else rng.normal(size=n))
        y = rng.integers(-25, 25, k) if kind == "int" else rng.normal(size=k) * 2
        hit = rng.random(k) < 0.3
        y[hit] = rng.choice(x, hit.sum())
        d = [[abs(float(a) - float(b)) for a in x] for b in y]
    m.case(x=x, y=y)
    m.count("single datetimes", n == 1)
    form = gen.pick(rng, (list, tuple, np.array))
    out = m.call(helpers.sorted_nearest, form(x), form(y))
    m.must(np.shape(out) == (k,), "nearest-shape", got=np.shape(out))
    for i in range(k):
        j = int(out[i])
        m.check(0 <= j < n and d[i][j] == min(d[i]), "nearest-value", got=j, y=y[i], x=x)


@workload(quick=300, thorough=5000)
def observer_index(rng, m):
    with _zone(rng, m):
        T, (t,), unit = _tracker(rng, m, 1)
        o = T.observers[0]
        m.case(datetimes=t)
        for _ in range(6):
            v = gen.pick(rng, t) + US * int(rng.integers(-3, 4)) * int(gen.pick(rng, (0, 1, unit)))
            maxdt = gen.pick(rng, (None, US * 0, US * unit, -US * unit, US * (2 * unit)))
            d = [abs(us(v) - us(k)) for k in t]
            tol = None if maxdt is None else abs(maxdt // US)
            kw = {} if maxdt == US * 0 and rng.random() < 0.5 else {"maxdt": maxdt}
            m.count("matches")
            if tol is not None and min(d) > tol:
                m.raises(ValueError, lambda: o.index(v, **kw), "index-out-of-range-raises", value=v)
            else:
                m.equal(d[int(o.index(v, **kw))], min(d), "index-of-nearest", value=v)
