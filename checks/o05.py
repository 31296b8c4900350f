import contextlib
import datetime
import io
import os
import pickle
import resource
import signal
import sys
from collections import Counter
import cv2
import numpy as np
from gmon import META, gen, workload
from gmon.core import scratch
from glimpse import Camera, Image, Observer
from glimpse.optimize import (
    KeypointMatcher,
    Matches,
    ObserverCameras,
    RotationMatches,
    RotationMatchesXY,
    RotationMatchesXYZ,
    detect_keypoints,
    match_keypoints,
)

META["rule"] = (
    "A case is a set of descriptors, an image, a choice of image pairs, or a history of building, overwriting, clearing, converting, "
    "filtering and dropping keypoints and matches over memory and files, serially and in parallel, with files that disappear and processes killed or failing while they write. "
    "Oracle: exhaustive comparison of descriptors, OpenCV's detector on the same pixels, and a model of what memory and each file hold."
)
META["require"] = {
    "matched": 3000, "ambiguous": 4, "pairs": 2000, "keypoints": 4000, "operations": 300, "parallel": 30, "files read": 40, "files written": 100,
    "overwrites": 30, "faults": 15, "dropped": 20, "breaks": 60, "found": 300, "interrupted": 25,
}
META["assumptions"] = [
    "OpenCV's brute-force matcher and feature detector are taken as correct; the approximate default matcher is judged on the share it finds",
    "no descriptor-distance ratio is within 1e-5 of its limit",
]

MTYPES = (None, Matches, RotationMatches, RotationMatchesXY, RotationMatchesXYZ)
BF = cv2.BFMatcher


def quiet(fn, *args, **kwargs):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*args, **kwargs)


# ---- Reference


def distances(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return np.sqrt(np.maximum(((a[:, None] - b[None]) ** 2).sum(axis=2), 0))


def reference(ka, kb, cross_check=False, max_ratio=None, max_distance=None, ratios=False, mask=None):
    """Matches that must be found and those that may be, as rows [ua, va, ub, vb, ratio]."""
    if mask is not None:
        ka, kb = inside(ka, mask), inside(kb, mask)
    need = 2 if (max_ratio or ratios) else 1
    na, nb = len(ka[0]), len(kb[0])
    if na < need or nb < need:
        return [], []
    pa = np.array([k.pt for k in ka[0]])
    pb = np.array([k.pt for k in kb[0]])
    d = distances(ka[1], kb[1])
    must, may = [], []
    eps = 1e-5
    for i in range(na):
        best = d[i].min()
        candidates = np.flatnonzero(d[i] <= best * (1 + eps) + 1e-12)
        sure = len(candidates) == 1
        second = np.partition(d[i], 1)[1] if nb > 1 else np.nan
        ratio = best / second if second else 1.0
        for j in candidates:
            ok, certain = True, sure
            if cross_check:
                back = d[:, j].min()
                ok &= d[i, j] <= back * (1 + eps) + 1e-12
                certain &= (d[:, j] <= back * (1 + eps) + 1e-12).sum() == 1
            if max_ratio:
                ok &= ratio < max_ratio * (1 + eps)
                certain &= ratio < max_ratio * (1 - eps)
            if max_distance:
                distance = np.linalg.norm(pa[i] - pb[j])
                ok &= distance < max_distance * (1 + 1e-9)
                certain &= distance < max_distance * (1 - 1e-9)
            if ok:
                (must if certain else may).append((*pa[i], *pb[j], ratio))
    return must, may


def inside(k, mask):
    keep = [
        i for i, p in enumerate(k[0])
        if np.asarray(mask)[int(np.floor(p.pt[1] + 0.5)), int(np.floor(p.pt[0] + 0.5))]
    ]
    return [k[0][i] for i in keep], (k[1][keep] if len(keep) else None)


def keys(rows):
    return Counter(tuple(np.round(r[:4], 3)) for r in rows)


def judge(m, actual, ref, mech, **detail):
    """Compare uvs (and ratios) to the reference."""
    must, may = ref
    uva, uvb, ratios = actual
    m.must(
        isinstance(uva, np.ndarray) and uva.shape == uvb.shape and uva.ndim == 2 and uva.shape[1] == 2,
        mech + "/shape", shapes=(np.shape(uva), np.shape(uvb)), **detail,
    )
    rows = np.column_stack((uva, uvb))
    got, must_, may_ = keys(rows), keys(must), keys(may)
    m.count("matched", len(rows))
    m.check(not (must_ - got), mech + "/missing", missing=list((must_ - got))[:4], n=(len(rows), len(must), len(may)), **detail)
    extra = got - must_ - may_
    m.check(not extra, mech + "/wrong", extra=list(extra)[:4], n=(len(rows), len(must), len(may)), **detail)
    if ratios is not None and not extra:
        m.check(len(ratios) == len(rows), mech + "/ratios-shape", n=(len(ratios), len(rows)), **detail)
        allowed = {}
        for r in list(must) + list(may):
            allowed.setdefault(tuple(np.round(r[:4], 3)), []).append(r[4])
        for row, ratio in zip(rows, ratios):
            options = np.array(allowed[tuple(np.round(row, 3))])
            with np.errstate(invalid="ignore"):
                ok = np.isclose(options, ratio, rtol=1e-3, atol=1e-4).any()
            if not m.check(ok, mech + "/ratio", got=ratio, expected=options, row=row, **detail):
                break


def weight_ratios(weights):
    with np.errstate(divide="ignore"):
        return 1 / np.asarray(weights, dtype=float)


# ---- Matching of descriptors


def random_keypoints(rng, n, dim, size=(120, 100), spread=1.0):
    points = [
        cv2.KeyPoint(float(np.float32(rng.uniform(0, size[0] - 1))), float(np.float32(rng.uniform(0, size[1] - 1))), 5.0, 0.0, 1.0, 0, -1)
        for _ in range(n)
    ]
    descriptors = rng.uniform(0, 200, (n, dim)).astype(np.float32) if n else None
    return points, descriptors


@workload(quick=160, thorough=3000)
def descriptors(rng, m):
    dim = int(rng.choice([4, 16, 128]))
    na = int(rng.choice([0, 1, 2, 3, rng.integers(4, 60)], p=[0.05, 0.05, 0.05, 0.05, 0.8]))
    nb = int(rng.choice([0, 1, 2, 3, rng.integers(4, 60)], p=[0.05, 0.05, 0.05, 0.05, 0.8]))
    ka, kb = random_keypoints(rng, na, dim), random_keypoints(rng, nb, dim)
    if na and nb:
        # Observe some of the first again in the second
        for i in rng.permutation(na)[: rng.integers(0, na + 1)]:
            j = rng.integers(nb)
            kb[1][j] = ka[1][i] + rng.normal(0, rng.choice([0.5, 10, 30]), dim)
            if rng.random() < 0.5:
                p = np.array(ka[0][i].pt) + rng.normal(0, 3, 2)
                kb[0][j].pt = tuple(float(np.float32(x)) for x in np.clip(p, 0, [119, 99]))
        if rng.random() < 0.15:
            # Duplicate keypoints, as in a repeated pattern
            kb[1][rng.integers(nb)] = kb[1][rng.integers(nb)]
            ka[1][rng.integers(na)] = kb[1][rng.integers(nb)]
            if nb > 2:
                kb[1][:2] = ka[1][0]
                m.count("ambiguous")
    args = {}
    if rng.random() < 0.5:
        args["cross_check"] = bool(rng.random() < 0.8)
    if rng.random() < 0.5:
        args["max_ratio"] = float(rng.choice([0.3, 0.7, 0.9, 1.0]))
    if rng.random() < 0.4:
        args["max_distance"] = float(rng.choice([3, 20, 60]))
    mask = None
    if rng.random() < 0.25:
        mask = np.zeros((100, 120), dtype=rng.choice(["uint8", "bool"]))
        r, c = rng.integers(0, 60, 2)
        mask[r : r + rng.integers(10, 90), c : c + rng.integers(10, 90)] = 1
        args["mask"] = mask
        m.count("masked")
    ratios = bool(rng.random() < 0.5)
    m.case(na=na, nb=nb, dim=dim, args={k: v for k, v in args.items() if k != "mask"}, masked=mask is not None, ratios=ratios)
    ref = reference(ka, kb, ratios=ratios, **args)
    ok, result = m.returns(lambda: match_keypoints(ka, kb, matcher=BF(), return_ratios=ratios, **args), "match")
    if ok:
        m.check(len(result) == (3 if ratios else 2), "match/results", n=len(result))
        judge(m, (*result[:2], result[2] if ratios else None), ref, "match")
    # Order of the arguments
    if args.get("cross_check") and not args.get("max_ratio") and not ratios:
        ok, swapped = m.returns(lambda: match_keypoints(kb, ka, matcher=BF(), **args), "swap")
        if ok:
            must, may = ref
            judge(
                m, (*swapped, None), ([(*r[2:4], *r[:2], r[4]) for r in must], [(*r[2:4], *r[:2], r[4]) for r in may]),
                "swap",
            )


@workload(quick=24, thorough=300)
def default_matcher(rng, m):
    n = int(rng.integers(30, 200))
    ka = random_keypoints(rng, n, 128)
    order = rng.permutation(n)
    kb = [ka[0][i] for i in order], (ka[1][order] + rng.normal(0, 3, (n, 128))).astype(np.float32)
    kb = [cv2.KeyPoint(k.pt[0] + 2, k.pt[1] + 1, 5.0) for k in kb[0]], kb[1]
    args = {}
    if rng.random() < 0.5:
        args["cross_check"] = True
    if rng.random() < 0.7:
        args["max_ratio"] = 0.8
    if rng.random() < 0.5:
        args["max_distance"] = 5
    m.case(n=n, args=args)
    ok, result = m.returns(lambda: match_keypoints(ka, kb, **args), "default")
    if not ok:
        return
    m.must(result[0].shape == result[1].shape and result[0].shape[1] == 2, "default/shape", shapes=[r.shape for r in result])
    right = np.isclose(result[1] - result[0], [2, 1], atol=1e-3).all(axis=1).sum()
    m.count("found", right)
    m.check(right >= 0.6 * n, "default/found", found=right, n=n, matched=len(result[0]))
    if args:
        m.check(right >= 0.9 * len(result[0]), "default/wrong", found=right, matched=len(result[0]))


# ---- Images


def texture(rng, h, w):
    out = np.zeros((h, w))
    for sigma, amplitude in ((1.5, 1), (3, 1.5), (6, 2)):
        noise = cv2.GaussianBlur(rng.normal(size=(h, w)), (0, 0), sigma)
        out += amplitude * noise / noise.std()
    out = (out - out.min()) / (out.max() - out.min())
    return (out * 255).astype(np.uint8)


def make_images(rng, folder, n, size=(110, 90), write=True, names=None, spread=4):
    """Images of a shifting scene, and their pixels."""
    w, h = size
    bands = int(rng.choice([1, 3]))
    scene = np.dstack([texture(rng, h + 20, w + 20) for _ in range(bands)])
    t = datetime.datetime(2020, 5, 1, 12)
    images, arrays = [], []
    base = rng.uniform(-20, 20, 3)
    f = rng.uniform(80, 300)
    for i in range(n):
        du, dv = rng.integers(0, 20, 2)
        array = scene[dv : dv + h, du : du + w]
        array = array[:, :, 0] if bands == 1 else array
        name = names[i] if names else f"img{i:02d}" + str(rng.choice(["", "_a", "-b"]))
        path = os.path.join(folder, name + ".png")
        if write:
            cv2.imwrite(path, array if bands == 1 else array[:, :, ::-1])
        cam = Camera(imgsz=size, f=f, xyz=(1, 2, 3), viewdir=base + rng.normal(0, 0.5, 3))
        images.append(Image(path, cam=cam, datetime=t))
        arrays.append(array)
        t += datetime.timedelta(seconds=int(rng.integers(0 if i % 3 else 1, spread + 1)) * 30)
    return images, arrays


def prepare(array, clahe):
    if array.ndim > 2:
        array = array.astype(float).mean(axis=2)
    array = array.astype(np.uint8)
    if clahe is not False:
        array = cv2.createCLAHE(**({} if clahe is True else clahe)).apply(array)
    return array


def ref_detect(array, mask=None, root=False, **kwargs):
    points, d = cv2.SIFT_create(**kwargs).detectAndCompute(array, None if mask is None else np.asarray(mask, dtype=np.uint8))
    if root and d is not None:
        d = np.sqrt(d / np.maximum(d.sum(axis=1, keepdims=True), 1e-7))
    return points, d


def table(k):
    """Keypoints and descriptors as a sorted array."""
    points, d = k
    if not len(points):
        return np.zeros((0, 5))
    values = np.array([[*p.pt, p.size, p.angle, p.response * 100] for p in points])
    values = np.column_stack((values, d))
    return values[np.lexsort(np.round(values[:, :4], 2).T)]


def same_keypoints(a, b):
    a, b = table(a), table(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-4, atol=2e-3)


def judge_keypoints(m, k, ref, mech, **detail):
    ok = isinstance(k, (tuple, list)) and len(k) == 2 and same_keypoints(k, ref)
    m.count("keypoints", len(ref[0]))
    return m.check(ok, mech, got=None if k is None else table(k)[:3, :4], expected=table(ref)[:3, :4], n=(None if k is None else len(k[0]), len(ref[0])), **detail)


def random_detection(rng, n=None):
    """Arguments of a detection."""
    args = {}
    if rng.random() < 0.5:
        args["root"] = bool(rng.random() < 0.7)
    if rng.random() < 0.6:
        args["nfeatures"] = int(rng.choice([5, 20, 60]))
    if rng.random() < 0.3:
        args["contrastThreshold"] = float(rng.choice([0.02, 0.08]))
    return args


def random_mask(rng, size, dtype="uint8"):
    mask = np.zeros(size[::-1], dtype=dtype)
    r, c = rng.integers(0, 40, 2)
    mask[r : r + rng.integers(20, 80), c : c + rng.integers(20, 80)] = 255 if dtype == "uint8" and rng.random() < 0.5 else 1
    return mask


@workload(quick=40, thorough=600)
def detection(rng, m):
    size = (int(rng.integers(40, 140)), int(rng.integers(40, 140)))
    array = texture(rng, size[1], size[0])
    if rng.random() < 0.2:
        array = array.astype(rng.choice(["float64", "int32"]))
    if rng.random() < 0.1:
        array = np.full(size[::-1], 100, dtype="uint8")
    args = random_detection(rng)
    mask = random_mask(rng, size, dtype=rng.choice(["uint8", "bool"])) if rng.random() < 0.6 else None
    m.case(size=size, args=args, masked=mask is not None, dtype=array.dtype)
    before = array.copy()
    ok, k = m.returns(lambda: detect_keypoints(array, mask=mask, **args), "detect")
    if not ok:
        return
    m.equal(array, before, "detect/array-unchanged")
    ref = ref_detect(array.astype("uint8"), mask=mask, **args)
    if not judge_keypoints(m, k, ref, "detect"):
        return
    if mask is not None:
        m.check(all(mask[int(p.pt[1] + 0.5), int(p.pt[0] + 0.5)] for p in k[0]), "detect/mask")
    if args.get("root") and len(k[0]):
        m.close((k[1] ** 2).sum(axis=1), np.ones(len(k[0])), "detect/root", rtol=1e-4)


# ---- Choice of pairs


def wanted_pairs(images, maxdt=None, seq=None, imgs=None):
    n = len(images)
    pairs = set()
    for i in range(n):
        for j in range(i + 1, n):
            ok = maxdt is None and seq is None
            if maxdt is not None:
                ok |= images[j].datetime - images[i].datetime <= maxdt
            if seq is not None:
                ok |= (j - i) in set(np.atleast_1d(seq).tolist())
            if imgs is not None:
                group = set(np.atleast_1d(imgs).tolist())
                ok &= i in group or j in group
            if ok:
                pairs.add((i, j))
    return pairs


def random_pairs(rng, n):
    args = {}
    if rng.random() < 0.5:
        args["maxdt"] = datetime.timedelta(seconds=int(rng.choice([0, 30, 60, 90, 300, 10000])))
    if rng.random() < 0.5:
        seq = rng.choice([-1, 0, 1, 1, 2, 3, 5, 50], size=rng.integers(1, 4))
        args["seq"] = [seq, seq.tolist(), tuple(seq.tolist())][rng.integers(3)]
    if rng.random() < 0.4:
        group = rng.permutation(n)[: rng.integers(0 if rng.random() < 0.2 else 1, min(n, 4) + 1)]
        args["imgs"] = [group, group.tolist()][rng.integers(2)]
    return args


def held(matcher):
    """Pairs held by a matcher, and their matches."""
    x = matcher.matches
    return {(int(i), int(j)): v for i, j, v in zip(x.row, x.col, x.data)}


def judge_held(m, matcher, expected, mech, mtype=Matches, **detail):
    """The matches held are exactly those expected: {pair: (must, may, has weights)}."""
    x = matcher.matches
    n = len(matcher.images)
    m.check(tuple(x.shape) == (n, n), mech + "/shape", shape=x.shape, n=n, **detail)
    pairs = held(matcher)
    m.check(len(x.data) == len(x.row) == len(x.col) == len(pairs), mech + "/duplicates", n=(len(x.data), len(pairs)), **detail)
    m.count("pairs", len(pairs))
    m.must(set(pairs) == set(expected), mech + "/pairs", got=sorted(pairs), expected=sorted(expected), **detail)
    for (i, j), match in pairs.items():
        must, may, weighted, uvs = expected[i, j]
        m.must(type(match) is mtype, mech + "/type", got=type(match), expected=mtype, pair=(i, j), **detail)
        m.check(
            match.cams[0] is matcher.images[i].cam and match.cams[1] is matcher.images[j].cam, mech + "/cameras", pair=(i, j), **detail
        )
        m.check((match.weights is not None) == weighted, mech + "/weights", pair=(i, j), weighted=weighted, **detail)
        if mtype in (RotationMatches, RotationMatchesXY, RotationMatchesXYZ):
            xys = match.xys
            m.check(len(xys[0]) == len(xys[1]), mech + "/xys", pair=(i, j), **detail)
            values = [np.reshape(cam._xy_to_uv(xy), (-1, 2)) for cam, xy in zip(match.cams, xys)]
            m.check((match.uvs is not None) == uvs, mech + "/uvs", pair=(i, j), **detail)
            if match.uvs is not None:
                for a, b in zip(values, match.uvs):
                    m.close(a, b, mech + "/xys-uvs", atol=1e-6, pair=(i, j), **detail)
                values = match.uvs
        else:
            values = match.uvs
        ratios = weight_ratios(match.weights) if weighted and match.weights is not None else None
        judge(m, (*values, ratios), (must, may), mech + "/match", pair=(i, j), **detail)


def fake_matcher(rng, n, names=None, folder="nowhere"):
    images, _ = make_images(rng, folder, n, write=False, names=names)
    matcher = KeypointMatcher(images)
    world = random_keypoints(rng, 12, 8)
    keypoints = []
    for i in range(n):
        k = rng.permutation(12)[: rng.integers(0 if rng.random() < 0.2 else 4, 13)]
        shift = rng.uniform(-2, 2, 2)
        points = [cv2.KeyPoint(float(np.float32(world[0][a].pt[0] + shift[0])), float(np.float32(world[0][a].pt[1] + shift[1])), 5.0) for a in k]
        d = (world[1][k] + rng.normal(0, 5, (len(k), 8))).astype(np.float32) if len(k) else None
        keypoints.append((points, d))
    return matcher, keypoints


def random_limits(rng):
    args = {}
    if rng.random() < 0.4:
        args["cross_check"] = True
    if rng.random() < 0.5:
        args["max_ratio"] = float(rng.choice([0.5, 0.8, 0.95]))
    if rng.random() < 0.4:
        args["max_distance"] = float(rng.choice([2, 10, 50]))
    return args


@workload(quick=120, thorough=2000)
def pairs(rng, m):
    n = int(rng.integers(1, 10))
    matcher, keypoints = fake_matcher(rng, n)
    images = list(matcher.images)
    folder = scratch() if rng.random() < 0.4 else None
    parallel = int(rng.choice([0, 2])) if rng.random() < 0.3 else False
    weights = bool(rng.random() < 0.5)
    mtype = MTYPES[rng.integers(5)]
    select = random_pairs(rng, n)
    limits = random_limits(rng)
    m.case(n=n, select=select, limits=limits, files=folder is not None, parallel=parallel, weights=weights, mtype=mtype)
    matcher.keypoints = list(keypoints)
    keep = bool(rng.random() < 0.5)
    wanted = wanted_pairs(images, **select)
    if parallel:
        m.count("parallel")
    ok, _ = m.returns(
        lambda: quiet(
            matcher.build_matches, path=folder, parallel=parallel, weights=weights, mtype=mtype, clear_keypoints=not keep,
            matcher=BF(), **select, **limits
        ),
        "build",
    )
    if not ok:
        return
    expected = {
        (i, j): (*reference(keypoints[i], keypoints[j], ratios=weights, **limits), weights, True) for i, j in wanted
    }
    judge_held(m, matcher, expected, "build", mtype=mtype or Matches)
    m.check(
        all((k is not None) == keep for k in matcher.keypoints), "build/clear-keypoints", keep=keep, held=[k is not None for k in matcher.keypoints]
    )
    if folder:
        names = [os.path.basename(img.path)[:-4] for img in images]
        files = {f"{names[i]}-{names[j]}.pkl" for i, j in wanted}
        m.equal(set(os.listdir(folder)), files, "build/files")
    # Summaries and changes of the matches held
    current = dict(expected)
    mtype = mtype or Matches
    uvs = True
    order = list(range(n))
    for step in range(int(rng.integers(1, 5))):
        n = len(order)
        have = held(matcher)
        sizes = {p: match.size for p, match in have.items()}
        total = [sum(s for p, s in sizes.items() if i in p) for i in range(n)]
        linked = [sum(s > 0 for p, s in sizes.items() if i in p) for i in range(n)]
        ok, got = m.returns(matcher.matches_per_image, "matches-per-image")
        if ok:
            m.equal(np.asarray(got), np.array(total), "matches-per-image")
        ok, got = m.returns(matcher.images_per_image, "images-per-image")
        if ok:
            m.equal(np.asarray(got), np.array(linked), "images-per-image")
        for least in (None, 0, 1, int(rng.integers(2, 6))):
            per = [sum(p[0] == i for p in have) for i in range(n)]
            breaks = [i for i in range(n - 1) if per[i] < min(max(least or 1, 1), n - 1 - i)]
            ok, got = m.returns(lambda: matcher.match_breaks(*([] if least is None else [least])), "match-breaks")
            m.count("breaks", len(breaks))
            if ok:
                m.equal(np.asarray(got), np.array(breaks, dtype=int), "match-breaks", least=least, pairs=sorted(have))
        what = rng.choice(["drop", "filter", "convert", "clear-weights"])
        par = 2 if rng.random() < 0.15 else False
        if par:
            m.count("parallel")
        m.count("operations")
        if what == "drop":
            if not have:
                continue
            k = int(rng.integers(0, min(3, n) + 1))
            drop = rng.permutation(n)[:k]
            argument = int(drop[0]) if k == 1 and rng.random() < 0.5 else [drop, drop.tolist()][rng.integers(2)]
            images_before, keypoints_before = list(matcher.images), list(matcher.keypoints)
            left = {p: v for p, v in current.items() if not set(p) & set(drop.tolist())}
            stay = sorted({i for p in left for i in p})
            m.count("dropped", n - len(stay))
            ok, _ = m.returns(lambda: matcher.drop_images(argument), "drop", drop=argument, n=n)
            if not ok:
                return
            m.must(len(matcher.images) == len(stay) and all(a is images_before[i] for a, i in zip(matcher.images, stay)), "drop/images", stay=stay, n=len(matcher.images), drop=argument, pairs=sorted(current))
            m.must(
                len(matcher.keypoints) == len(stay) and all(a is keypoints_before[i] for a, i in zip(matcher.keypoints, stay)), "drop/keypoints", stay=stay,
            )
            new = {old: i for i, old in enumerate(stay)}
            current = {(new[i], new[j]): v for (i, j), v in left.items()}
            order = [order[i] for i in stay]
            if not order:
                return
        elif what == "filter":
            kwargs = {}
            if rng.random() < 0.6:
                kwargs["max_distance"] = float(rng.choice([1, 4, 30]))
            weighted = all(v[2] for v in current.values()) and current
            if weighted and rng.random() < 0.5:
                kwargs["min_weight"] = float(rng.choice([1.2, 2]))
            clear = bool(rng.random() < 0.3)
            ok, _ = m.returns(lambda: quiet(matcher.filter_matches, clear_weights=clear, parallel=par, **kwargs), "filter", kwargs=kwargs)
            if not ok:
                return

            def keeps(r):
                distance = np.linalg.norm(np.subtract(r[:2], r[2:4]))
                limit = kwargs.get("max_distance")
                weight = 1 / r[4] if r[4] else np.inf
                least = kwargs.get("min_weight")
                sure = (limit is None or distance <= limit - 1e-6) and (least is None or weight >= least * (1 + 1e-3))
                maybe = (limit is None or distance <= limit + 1e-6) and (least is None or weight >= least * (1 - 1e-3))
                return sure, maybe

            for p, (must, may, w, u) in current.items():
                current[p] = (
                    [r for r in must if keeps(r)[0]],
                    [r for r in may if keeps(r)[1]] + [r for r in must if keeps(r)[1] and not keeps(r)[0]], w and not clear, u,
                )
        elif what == "convert":
            mtype = MTYPES[rng.integers(1, 5)]
            clear = bool(rng.random() < 0.3)
            before = {p: v.uvs is not None for p, v in have.items()}
            ok, _ = m.returns(lambda: quiet(matcher.convert_matches, mtype, clear_uvs=clear, parallel=par), "convert", mtype=mtype)
            if not ok:
                return
            for p, (must, may, w, u) in current.items():
                if mtype in (Matches, RotationMatches):
                    u = True
                elif clear:
                    u = False
                else:
                    u = before[p]
                current[p] = (must, may, w, u)
        else:
            ok, _ = m.returns(lambda: quiet(matcher.filter_matches, clear_weights=True, parallel=par), "clear-weights")
            if not ok:
                return
            current = {p: (must, may, False, u) for p, (must, may, w, u) in current.items()}
        judge_held(m, matcher, current, what, mtype=mtype)


# ---- Histories


class Model:
    """What the memory of a matcher and the files should hold."""

    def __init__(self, n):
        self.n = n
        self.memory = [None] * n
        self.files = {}
        self.matches = None
        self.match_files = {}


def pickles(folder):
    """Names of result files (an interrupted write may leave others behind)."""
    return sorted(name for name in os.listdir(folder) if name.endswith(".pkl"))


def interrupted(limit, kill, fn):
    """Run in a child process which fails once a file it writes exceeds a size.

    The child is killed by the write, or the write raises an error.
    Returns whether the child finished undisturbed.
    """
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
            os.dup2(1, 2)
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            fn()
            code = 0
        except BaseException:
            code = 4
        finally:
            os._exit(code)
    return os.waitpid(pid, 0)[1] == 0


def read_pickle(path):
    import pickle

    with open(path, "rb") as f:
        return pickle.load(f)


@workload(quick=200, thorough=1800)
def history(rng, m):
    n = int(rng.integers(2, 5))
    size = (110, 90)
    folder = scratch()
    images, arrays = make_images(rng, folder, n, size=size)
    names = [os.path.basename(img.path)[:-4] for img in images]
    clahe = [False, True, {"clipLimit": 3.0, "tileGridSize": (4, 4)}][rng.choice(3, p=[0.7, 0.15, 0.15])]
    pixels = [prepare(a, clahe) for a in arrays]
    kdir, mdir = os.path.join(folder, "keypoints"), os.path.join(folder, "matches")
    os.mkdir(kdir), os.mkdir(mdir)
    matcher = KeypointMatcher(images, clahe=clahe)
    model = Model(n)
    log = []
    m.case(n=n, clahe=clahe, names=names)

    def kfile(i):
        return os.path.join(kdir, names[i] + ".pkl")

    def mfile(i, j):
        return os.path.join(mdir, f"{names[i]}-{names[j]}.pkl")

    def verify(what):
        """Memory and files hold what the model says."""
        held_ = matcher.keypoints if matcher.keypoints is not None else [None] * n
        m.must(len(held_) == n, what + "/memory-length", n=len(held_), log=log)
        for i in range(n):
            if model.memory[i] is None:
                m.must(held_[i] is None, what + "/keypoints-held", image=i, log=log)
            else:
                m.must(held_[i] is not None, what + "/keypoints-missing", image=i, log=log)
                judge_keypoints(m, held_[i], model.memory[i], what + "/keypoints", image=i, log=log)
        m.equal(pickles(kdir), sorted(names[i] + ".pkl" for i in model.files), what + "/keypoint-files", log=log)
        for i, k in model.files.items():
            if os.path.exists(kfile(i)):
                judge_keypoints(m, read_pickle(kfile(i)), k, what + "/keypoint-file", image=i, log=log)
        m.equal(
            pickles(mdir), sorted(os.path.basename(mfile(*p)) for p in model.match_files), what + "/match-files", log=log
        )
        for p, (must, may, weighted) in model.match_files.items():
            if os.path.exists(mfile(*p)):
                x = read_pickle(mfile(*p))
                m.must(type(x) is Matches, what + "/match-file-type", got=type(x), log=log)
                m.check((x.weights is not None) == weighted, what + "/match-file-weights", pair=p, log=log)
                judge(m, (*x.uvs, weight_ratios(x.weights) if weighted and x.weights is not None else None), (must, may), what + "/match-file", pair=p, log=log)
        if model.matches is None:
            m.check(matcher.matches is None, what + "/matches-held", log=log)
        else:
            m.must(matcher.matches is not None, what + "/matches-missing", log=log)
            current, mtype = model.matches
            judge_held(m, matcher, current, what + "/matches", mtype=mtype, log=log)

    for step in range(int(rng.integers(3, 8))):
        kind = rng.choice(["keypoints", "matches", "restart", "recalibrate", "delete", "image-fault"], p=[0.36, 0.34, 0.07, 0.08, 0.09, 0.06])
        m.count("operations")
        parallel = 2 if rng.random() < 0.18 else False
        if kind in ("keypoints", "image-fault"):
            args = random_detection(rng)
            choice = rng.integers(3)
            masks = None
            if choice == 1:
                masks = random_mask(rng, size)
            elif choice == 2:
                masks = [random_mask(rng, size) if rng.random() < 0.7 else None for _ in range(n)]
            each = masks if isinstance(masks, list) else [masks] * n
            path = kdir if rng.random() < 0.6 else None
            overwrite = bool(rng.random() < 0.35)
            clear = bool(path and rng.random() < 0.3)
            clear_images = bool(rng.random() < 0.7)
            log.append(("keypoints", args, choice, bool(path), overwrite, clear, parallel))
            # Model
            new_memory, new_files, detect = [], dict(model.files), set()
            for i in range(n):
                k, f = model.memory[i], model.files.get(i) if path else None
                if overwrite or (k is None and f is None):
                    k = f = ref_detect(pixels[i], mask=each[i], **args)
                    detect.add(i)
                    m.count("overwrites", overwrite)
                elif k is None:
                    k = f
                    m.count("files read")
                elif f is None:
                    f = k
                if path:
                    if f is not model.files.get(i):
                        m.count("files written")
                    new_files[i] = f
                new_memory.append(None if clear else k)
            if parallel:
                m.count("parallel")

            if rng.random() < 0.4:
                for img in images:
                    img.read()

            def run():
                return quiet(
                    matcher.build_keypoints, masks=masks, path=path, overwrite=overwrite, clear_keypoints=clear,
                    clear_images=clear_images, parallel=parallel, **args
                )

            missing = None
            if kind == "image-fault" and detect:
                # An image cannot be read
                missing = int(rng.choice(sorted(detect)))
                for img in images:
                    img.array = None
                os.rename(images[missing].path, images[missing].path + ".away")
                log.append(("image missing", missing))
                m.count("faults")
                failed = False
                try:
                    run()
                except Exception:
                    failed = True
                finally:
                    os.rename(images[missing].path + ".away", images[missing].path)
                m.must(failed, "fault/no-error", image=missing, log=log)
                # Memory is as it was, and each file as it was or as it should be
                held_ = matcher.keypoints if matcher.keypoints is not None else [None] * n
                for i in range(n):
                    options = [model.memory[i], new_memory[i] if i != missing else model.memory[i]]
                    ok = any((o is None) == (held_[i] is None) and (o is None or same_keypoints(o, held_[i])) for o in options)
                    m.must(ok, "fault/memory", image=i, missing=missing, log=log)
                    model.memory[i] = held_[i]
                    options = [model.files.get(i), new_files.get(i) if i != missing else model.files.get(i)]
                    now = read_pickle(kfile(i)) if os.path.exists(kfile(i)) else None
                    ok = any((o is None) == (now is None) and (o is None or same_keypoints(o, now)) for o in options)
                    m.must(ok, "fault/file", image=i, missing=missing, log=log)
                    if now is not None:
                        model.files[i] = now
                verify("fault")
                continue
            ok, _ = m.returns(run, "keypoints", log=log)
            if not ok:
                return
            model.memory, model.files = new_memory, new_files
            if clear_images:
                m.check(all(images[i].array is None for i in detect), "keypoints/clear-images", log=log)
            verify("keypoints")
        elif kind == "recalibrate":
            # Files hold image coordinates, whatever the cameras were when they were written
            log.append("recalibrate")
            f, xyz = rng.uniform(80, 300), rng.uniform(-5, 5, 3)
            for img in images:
                img.cam.f, img.cam.c, img.cam.xyz = f * rng.uniform(0.95, 1.05), rng.uniform(-3, 3, 2), xyz
                img.cam.k = (rng.uniform(-0.05, 0.05), 0, 0, 0, 0, 0)
                img.cam.viewdir = img.cam.viewdir + rng.normal(0, 1, 3)
            m.count("recalibrations")
            # Matches with precomputed coordinates are void
            matcher.matches = model.matches = None
            verify("recalibrate")
        elif kind == "restart":
            log.append("restart")
            matcher = KeypointMatcher(images, clahe=clahe)
            model.memory, model.matches = [None] * n, None
            verify("restart")
        elif kind == "delete":
            some = [(kfile(i), i) for i in model.files] + [(mfile(*p), p) for p in model.match_files]
            if not some:
                continue
            for k in rng.permutation(len(some))[: rng.integers(1, 3)]:
                path, key = some[k]
                log.append(("delete", os.path.basename(path)))
                os.remove(path)
                (model.files if isinstance(key, int) else model.match_files).pop(key)
            verify("delete")
        else:
            select, limits = random_pairs(rng, n), random_limits(rng)
            weights = bool(rng.random() < 0.5)
            mtype = MTYPES[rng.integers(5)]
            path = mdir if rng.random() < 0.6 else None
            overwrite = bool(rng.random() < 0.3)
            clear = bool(path and rng.random() < 0.25)
            clear_keypoints = bool(rng.random() < 0.4)
            source = kdir if rng.random() < 0.6 or any(k is None for k in model.memory) else None
            filter_ = {"max_distance": float(rng.choice([3, 6, 15]))} if rng.random() < (0.7 if parallel else 0.3) else None
            log.append(("matches", select, limits, weights, mtype, bool(path), overwrite, clear, clear_keypoints, bool(source), filter_, parallel))
            wanted = wanted_pairs(images, **select)
            available = [k if k is not None else model.files.get(i) for i, k in enumerate(model.memory)]
            cached = {p for p in wanted if path and not overwrite and p in model.match_files}
            needed = {i for p in wanted - cached for i in p}

            def run():
                return quiet(
                    matcher.build_matches, path=path, overwrite=overwrite, clear_matches=clear, clear_keypoints=clear_keypoints,
                    keypoints_path=source, weights=weights, mtype=mtype, filter=filter_, parallel=parallel, matcher=BF(), **select, **limits
                )

            if parallel:
                m.count("parallel")
            error = None
            try:
                run()
            except Exception as e:
                error = e
            if error is not None:
                m.must(any(k is None for k in available), "matches", got=f"{type(error).__name__}: {error}", log=log)
                m.count("faults")
            elif any(available[i] is None for i in needed):
                m.fail("matches/no-error", needed=needed, log=log)
                return
            fresh = {
                p: (*reference(available[p[0]], available[p[1]], ratios=weights, **limits), weights)
                for p in wanted - cached if available[p[0]] is not None and available[p[1]] is not None
            }
            if error is not None:
                # Matches are as they were, and each file as it was or as it should be
                for p, new in fresh.items():
                    if path and os.path.exists(mfile(*p)):
                        x = read_pickle(mfile(*p))
                        got = keys(np.column_stack(x.uvs))
                        options = [o for o in (model.match_files.get(p), new) if o is not None]
                        ok = [o for o in options if not (keys(o[0]) - got) and not (got - keys(o[0]) - keys(o[1])) and o[2] == (x.weights is not None)]
                        m.must(bool(ok), "fault/match-file", pair=p, log=log)
                        model.match_files[p] = ok[-1]
                held_ = matcher.keypoints
                for i in range(n):
                    options = [model.memory[i], model.files.get(i), None if clear_keypoints else model.memory[i]]
                    ok = any((o is None) == (held_[i] is None) and (o is None or same_keypoints(o, held_[i])) for o in options)
                    m.must(ok, "fault/memory-matching", image=i, log=log)
                    model.memory[i] = held_[i]
                verify("fault-matching")
                continue
            result = {}
            for p in wanted:
                if p in cached:
                    result[p] = model.match_files[p]
                    m.count("files read")
                else:
                    result[p] = fresh[p]
                    if path:
                        m.count("files written")
                        m.count("overwrites", p in model.match_files)
                        model.match_files[p] = fresh[p]
            if clear:
                model.matches = None
            else:
                if filter_:
                    result = {
                        p: (
                            [r for r in must if np.hypot(r[0] - r[2], r[1] - r[3]) <= filter_["max_distance"]],
                            [r for r in may if np.hypot(r[0] - r[2], r[1] - r[3]) <= filter_["max_distance"]], w,
                        )
                        for p, (must, may, w) in result.items()
                    }
                model.matches = {p: (*v, True) for p, v in result.items()}, mtype or Matches
            # Keypoints held afterwards
            if clear_keypoints:
                model.memory = [None] * n
            else:
                for i, k in enumerate(model.memory):
                    # Those read from file may be kept
                    if k is None and matcher.keypoints[i] is not None:
                        model.memory[i] = model.files.get(i)
            verify("matches")


@workload(quick=60, thorough=800)
def reread(rng, m):
    """Matches read from files are those written, for the cameras as they are now."""
    n = int(rng.integers(2, 6))
    folder = scratch()
    matcher, keypoints = fake_matcher(rng, n, folder=folder)
    images = list(matcher.images)
    weights = bool(rng.random() < 0.5)
    first, second = random_pairs(rng, n), {} if rng.random() < 0.7 else random_pairs(rng, n)
    mtypes = [MTYPES[rng.integers(5)] for _ in range(2)]
    parallel = 2 if rng.random() < 0.15 else False
    change = rng.choice(["none", "cameras", "camera values", "matcher"], p=[0.1, 0.25, 0.4, 0.25])
    m.case(n=n, first=first, second=second, mtypes=mtypes, weights=weights, change=change, parallel=parallel)
    matcher.keypoints = list(keypoints)
    ok, _ = m.returns(
        lambda: quiet(matcher.build_matches, path=folder, weights=weights, mtype=mtypes[0], clear_keypoints=False, matcher=BF(), **first), "write"
    )
    if not ok:
        return

    def expect(wanted):
        return {(i, j): (*reference(keypoints[i], keypoints[j], ratios=weights), weights, True) for i, j in wanted}

    judge_held(m, matcher, expect(wanted_pairs(images, **first)), "write", mtype=mtypes[0] or Matches)
    f, xyz = rng.uniform(80, 300), rng.uniform(-5, 5, 3)
    for img in images if change != "none" else []:
        values = dict(
            imgsz=img.cam.imgsz.copy(), f=f * rng.uniform(0.9, 1.1, 2), c=rng.uniform(-3, 3, 2), xyz=xyz,
            k=(rng.uniform(-0.05, 0.05), 0, 0, 0, 0, 0), viewdir=img.cam.viewdir + rng.normal(0, 1, 3),
        )
        if change == "camera values":
            for key in ("f", "c", "xyz", "k", "viewdir"):
                setattr(img.cam, key, values[key])
        else:
            img.cam = Camera(**values)
    if change == "matcher":
        matcher = KeypointMatcher(images)
        matcher.keypoints = list(keypoints)
    files = {p for p in os.listdir(folder)}
    before = {p: open(os.path.join(folder, p), "rb").read() for p in files}
    ok, _ = m.returns(
        lambda: quiet(
            matcher.build_matches, path=folder, weights=weights, mtype=mtypes[1], clear_keypoints=False, matcher=BF(), parallel=parallel, **second
        ),
        "read",
    )
    if not ok:
        return
    wanted = wanted_pairs(images, **second)
    m.count("files read", len(wanted & wanted_pairs(images, **first)))
    judge_held(m, matcher, expect(wanted), "read", mtype=mtypes[1] or Matches)
    # Matches predict what the cameras as they are now predict
    for (i, j), match in held(matcher).items():
        if type(match) not in (Matches, RotationMatches) or not match.size:
            continue
        for c, (a, b) in enumerate([(i, j), (j, i)]):
            predicted = images[a].cam.xyz_to_uv(images[b].cam.uv_to_xyz(match.uvs[1 - c]), directions=True)
            m.close(match.predicted(c), predicted, "read/predicted", atol=1e-6, pair=(i, j), change=change)
    for p, content in before.items():
        m.check(open(os.path.join(folder, p), "rb").read() == content, "read/file-rewritten", file=p)


# ---- Errors


@workload(quick=16, thorough=100)
def errors(rng, m):
    n = int(rng.integers(2, 5))
    folder = scratch()
    images, _ = make_images(rng, folder, n)
    m.case(n=n)
    file = os.path.join(folder, "file")
    open(file, "w").close()
    matcher = KeypointMatcher(images)
    m.raises(ValueError, lambda: matcher.build_keypoints(clear_keypoints=True), "keypoints/clear-without-path")
    m.raises(ValueError, lambda: matcher.build_keypoints(path=file), "keypoints/path-is-file")
    m.raises(ValueError, lambda: quiet(matcher.build_matches), "matches/missing-keypoints")
    m.raises(ValueError, lambda: quiet(matcher.build_matches, clear_matches=True, keypoints_path=folder), "matches/clear-without-path")
    m.raises(ValueError, lambda: quiet(matcher.build_matches, path=file, keypoints_path=folder), "matches/path-is-file")
    for name in ("matches_per_image", "images_per_image", "match_breaks", "filter_matches"):
        m.raises(ValueError, getattr(matcher, name), "no-matches/" + name)
    m.raises(ValueError, lambda: matcher.drop_images(0), "no-matches/drop_images")
    m.raises(ValueError, lambda: matcher.convert_matches(RotationMatches), "no-matches/convert_matches")
    # Order of images
    late = [Image(img.path, cam=img.cam, datetime=img.datetime + datetime.timedelta(seconds=k)) for k, img in enumerate(images)]
    i, j = sorted(rng.permutation(n)[:2])
    late[i], late[j] = late[j], late[i]
    m.raises(ValueError, lambda: KeypointMatcher(late), "unordered")
    # Names of images
    sub = os.path.join(folder, "sub")
    os.mkdir(sub)
    extra = os.path.join(sub, os.path.basename(images[0].path))
    same = Image(extra, cam=images[0].cam.copy(), datetime=images[-1].datetime)
    ok, twice = m.returns(lambda: KeypointMatcher(images + [same]), "same-names/init")
    if ok:
        m.raises(ValueError, lambda: quiet(twice.build_keypoints), "same-names/keypoints")
        twice.keypoints = [([], None)] * (n + 1)
        m.raises(ValueError, lambda: quiet(twice.build_matches), "same-names/matches")


# ---- Observers


@workload(quick=60, thorough=700)
def crashes(rng, m):
    """Builds cut short while writing their files, and resumed."""
    n = int(rng.integers(2, 4))
    folder = scratch()
    images, arrays = make_images(rng, folder, n)
    names = [os.path.basename(img.path)[:-4] for img in images]
    pixels = [prepare(a, False) for a in arrays]
    kdir, mdir = os.path.join(folder, "keypoints"), os.path.join(folder, "matches")
    kfiles = [os.path.join(kdir, name + ".pkl") for name in names]
    what = str(gen.pick(rng, ("keypoints", "matches")))
    kill = bool(rng.random() < 0.5)
    # An error in one worker ends the others wherever they are
    parallel = 2 if not kill and rng.random() < 0.3 else False
    before = bool(rng.random() < 0.5)
    old_args, new_args = random_detection(rng), random_detection(rng)
    olds = [ref_detect(p, **old_args) for p in pixels]
    news = [ref_detect(p, **new_args) for p in pixels]
    m.case(n=n, what=what, kill=kill, parallel=parallel, before=before)
    if what == "keypoints":
        if before:
            quiet(KeypointMatcher(images).build_keypoints, path=kdir, **old_args)
        some = KeypointMatcher(images)
        quiet(some.build_keypoints, **new_args)
        sizes = [len(pickle.dumps(k)) for k in some.keypoints]
        matcher = KeypointMatcher(images)
        limit = int(rng.uniform(0, 1.05 * max(sizes) + (2000 if rng.random() < 0.1 else 0)))

        def run():
            matcher.build_keypoints(path=kdir, overwrite=before, parallel=parallel, **new_args)

        done = interrupted(limit, kill, run)
        m.count("interrupted" if not done else "undisturbed")
        m.must(done or limit <= max(sizes) + 1000, "crash/unrelated", limit=limit, sizes=sizes)
        left = []
        for i, f in enumerate(kfiles):
            if not os.path.exists(f):
                m.check(not before and not done, "crash/keypoint-file-lost", image=i)
                left.append(None)
                continue
            ok, k = m.returns(lambda: read_pickle(f), "crash/keypoint-file-complete", image=i, limit=limit, size=os.path.getsize(f))
            if not ok:
                return
            options = [news[i]] + [olds[i]] * before
            m.must(any(same_keypoints(o, k) for o in options), "crash/keypoint-file-content", image=i, limit=limit)
            left.append(k)
        matcher = KeypointMatcher(images)
        ok, _ = m.returns(lambda: quiet(matcher.build_keypoints, path=kdir, **new_args), "crash/resume")
        if not ok:
            return
        for i, k in enumerate(matcher.keypoints):
            judge_keypoints(m, k, news[i] if left[i] is None else left[i], "crash/resumed-keypoints", image=i)
        m.equal(pickles(kdir), sorted(name + ".pkl" for name in names), "crash/resumed-files")
        return
    matcher = KeypointMatcher(images)
    quiet(matcher.build_keypoints, **new_args)
    limits = random_limits(rng)
    pairs_ = wanted_pairs(images)
    refs = {p: reference(news[p[0]], news[p[1]], **limits) for p in pairs_}
    if before:
        quiet(matcher.build_matches, path=mdir, clear_keypoints=False, matcher=BF(), **limits)
        matcher.matches = None
    limit = int(rng.uniform(0, 900 + 40 * max([len(r[0]) + len(r[1]) for r in refs.values()] or [0])))
    done = interrupted(
        limit, kill, lambda: matcher.build_matches(path=mdir, matcher=BF(), overwrite=before, parallel=parallel, **limits)
    )
    m.count("interrupted" if not done else "undisturbed")

    def file(p):
        return os.path.join(mdir, f"{names[p[0]]}-{names[p[1]]}.pkl")

    for p, ref in refs.items():
        if not os.path.exists(file(p)):
            m.check(not before and not done, "crash/match-file-lost", pair=p)
            continue
        ok, x = m.returns(lambda: read_pickle(file(p)), "crash/match-file-complete", pair=p, limit=limit)
        if not ok:
            return
        judge(m, (*x.uvs, None), ref, "crash/match-file-content", pair=p)
    ok, _ = m.returns(lambda: quiet(matcher.build_matches, path=mdir, clear_keypoints=False, matcher=BF(), **limits), "crash/resume")
    if ok:
        judge_held(m, matcher, {p: (*ref, False, True) for p, ref in refs.items()}, "crash/resumed-matches")
        m.equal(pickles(mdir), sorted(os.path.basename(file(p)) for p in refs), "crash/resumed-files")


@workload(quick=12, thorough=100)
def observers(rng, m):
    n = int(rng.integers(2, 4))
    folder = scratch()
    while True:
        images, arrays = make_images(rng, folder, n)
        if all(b.datetime > a.datetime for a, b in zip(images, images[1:])):
            break
    m.case(n=n)
    cams = ObserverCameras(Observer(images), anchors=[0])
    parallel = 2 if rng.random() < 0.3 else False
    args, limits = random_detection(rng), random_limits(rng)
    select = random_pairs(rng, n)
    ok, _ = m.returns(lambda: quiet(cams.build_keypoints, parallel=parallel, **args), "build-keypoints")
    if not ok:
        return
    refs = [ref_detect(prepare(a, False), **args) for a in arrays]
    for k, ref in zip(cams.matcher.keypoints, refs):
        judge_keypoints(m, k, ref, "build-keypoints")
    ok, _ = m.returns(lambda: quiet(cams.build_matches, matcher=BF(), parallel=parallel, **select, **limits), "build-matches")
    if not ok:
        return
    expected = {
        p: (*reference(refs[p[0]], refs[p[1]], **limits), False, True) for p in wanted_pairs(images, **select)
    }
    judge_held(m, cams.matcher, expected, "build-matches", mtype=RotationMatchesXYZ)
    m.check(cams.matches is cams.matcher.matches, "build-matches/stored")
