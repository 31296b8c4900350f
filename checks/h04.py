import copy
import datetime
import json
import math
import os
import pickle
import numpy as np
from gmon import META, workload, gen, scratch
from glimpse import helpers

META["rule"] = (
    "A case is a random nested structure (strings with brackets, quotes, commas, escapes, spaces and non-ASCII text; numbers "
    "from tiny to huge; empty containers) written with random options and read back, or a random path or value. The oracle "
    "is the object itself, and a plain dump by the standard library for layout. Non-trivial unless the structure is empty."
)
META["require"] = {
    "json round trips": 500, "flattened arrays": 500, "strings with brackets in arrays": 100, "pickle round trips": 300,
    "text pickles": 40, "overwrites": 100, "new folders": 100, "paths": 500, "native values": 300,
}
META["assumptions"] = ["item separators contain a single comma (anything else is not JSON)", "names starting with a dot are not judged", "only arrays of scalars have to be on a single line"]

CH = ("a", "b", " ", "  ", "\n", "\t", "[", "]", "{", "}", ",", ", ", ":", '"', "\\", "/", "é", "雪", "\U0001f3d4", "0", "null", "[ 1,  2 ]", '"], [', "\\\"")


def _string(rng, m=None):
    return "".join(gen.pick(rng, CH) for _ in range(rng.integers(0, 7)))


def _scalar(rng):
    k = rng.integers(0, 9)
    if k == 0:
        return None
    if k == 1:
        return bool(rng.random() < 0.5)
    if k == 2:
        return int(rng.integers(-(2**62), 2**62)) * 2 ** int(rng.integers(0, 40))
    if k == 3:
        return float(rng.normal() * 10.0 ** rng.integers(-300, 300))
    if k == 4:
        return gen.pick(rng, (0, -0.0, 1e22, 0.1, float("inf"), float("-inf"), 1e-7, 123456789.123456789))
    if k == 5:
        return int(rng.integers(-5, 5))
    return _string(rng)


def _value(rng, depth=0):
    k = rng.random()
    if depth > 4 or k < 0.3:
        return _scalar(rng)
    n = int(rng.integers(0, 5))
    if k < 0.5:
        return [_scalar(rng) for _ in range(n)]
    if k < 0.75:
        return [_value(rng, depth + 1) for _ in range(n)]
    return {_string(rng): _value(rng, depth + 1) for _ in range(n)}


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, list) or isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    return a == b and str(a) == str(b)


def _strip(txt, m, flat):
    """Text without whitespace outside strings; counts newlines inside arrays of scalars."""
    out, i, inside, stack, broken = [], 0, False, [], 0
    for ch in txt:
        if inside:
            out.append(ch)
            if i:
                i = 0
            elif ch == "\\":
                i = 1
            elif ch == '"':
                inside = False
            continue
        if ch == '"':
            inside = True
        if ch == "[":
            for s in stack:
                s[1] = True
            stack.append([0, False])
        if ch == "{":
            for s in stack:
                s[1] = True
        if ch == "\n":
            for s in stack:
                s[0] += 1
        if ch == "]" and stack:
            n, objects = stack.pop()
            if flat and not objects:
                m.count("flattened arrays")
                broken += n > 0
        if not ch.isspace():
            out.append(ch)
    return "".join(out), broken


def _target(rng, m, ext):
    d = scratch()
    if rng.random() < 0.4:
        m.count("new folders")
        d = os.path.join(d, *(gen.pick(rng, ("a", "b c", "é")) for _ in range(rng.integers(1, 4))))
    else:
        if rng.random() < 0.6:
            with open(os.path.join(d, "x" + ext), "wb") as f:
                f.write(b"[" * 5000)
            m.count("overwrites")
    return os.path.join(d, "x" + ext)


@workload(quick=900, thorough=15000)
def jsons(rng, m):
    obj = _value(rng)
    if not isinstance(obj, (list, dict)):
        obj = {"x": obj} if rng.random() < 0.5 else [obj]
    kw = {}
    if rng.random() < 0.8:
        kw["indent"] = gen.pick(rng, (None, 0, 1, 2, 2, 4, 4, "\t", "  "))
    if rng.random() < 0.3:
        kw["separators"] = gen.pick(rng, ((",", ":"), (", ", ": "), (" , ", " : "), (",", ": ")))
    if rng.random() < 0.2:
        kw["ensure_ascii"] = False
    if rng.random() < 0.2:
        kw["sort_keys"] = True
        # all keys are strings
    flat = bool(rng.random() < 0.6)
    m.case(obj=obj, flat=flat, kw=kw)
    if not obj:
        m.trivial()
    plain = json.dumps(obj, **kw)
    ordered = json.loads(plain)
    ok, txt = m.returns(lambda: m.call(helpers.write_json, obj, flat_arrays=flat, **kw), "writes")
    if ok:
        ok, back = m.returns(lambda: json.loads(txt), "valid-json", txt=txt)
        ok and m.check(same(back, ordered), "string-round-trip", txt=txt)
        a, broken = _strip(txt, m, flat and kw.get("indent") is not None)
        m.check(broken == 0, "flat-arrays-on-one-line", txt=txt)
        m.equal(a, _strip(plain, m, False)[0], "same-text-but-whitespace")
        if not flat:
            m.equal(txt, plain, "plain-text")
    def walk(o):
        if isinstance(o, list):
            return any(isinstance(v, str) and ("[" in v or "]" in v) or walk(v) for v in o)
        return isinstance(o, dict) and any(map(walk, o.values()))
    m.count("strings with brackets in arrays", flat and walk(obj))
    path = _target(rng, m, ".json")
    ok, out = m.returns(lambda: m.call(helpers.write_json, obj, path, flat_arrays=flat, **kw), "writes-file")
    if ok:
        m.check(out is None, "no-text-when-written")
        ok, back = m.returns(lambda: helpers.read_json(path), "reads-file")
        ok and m.check(same(back, ordered), "file-round-trip", back=back)
        m.count("json round trips")


@workload(quick=400, thorough=6000)
def pickles(rng, m):
    obj = _value(rng)
    k = gen.pick(rng, ("plain", "array", "object", "tuple", "time"))
    if k == "array":
        obj = {"a": rng.normal(size=(3, 4)), "b": [np.arange(5, dtype="u1"), np.array([np.nan])], "c": obj}
    elif k == "tuple":
        obj = (obj, {"é": (1, 2)}, b"\x00\xff\n\r\n")
    elif k == "time":
        obj = [datetime.datetime(2020, 1, 1, microsecond=5), obj]
    gz, binary = bool(rng.random() < 0.5), bool(rng.random() < 0.8)
    kw = {"protocol": int(rng.integers(0, 6))} if binary and rng.random() < 0.4 else {}
    m.case(obj=obj, gz=gz, binary=binary, kw=kw)
    if k == "object":
        from glimpse import Camera
        cam = Camera(imgsz=(int(rng.integers(5, 100)), 7), f=(9.5, 10), k=(0.1,), xyz=(1, 2, 3))
        obj = [cam.to_array(), cam.imgsz]
    path = _target(rng, m, ".pkl" + (".gz" if gz else ""))
    ok, _ = m.returns(lambda: m.call(helpers.write_pickle, obj, path, gz=gz, binary=binary, **kw), "writes-pickle")
    if not ok:
        return
    m.count("text pickles", not binary)
    ok, back = m.returns(lambda: helpers.read_pickle(path, gz=gz, binary=binary), "reads-pickle")
    ok and m.check(same(obj, back), "pickle-round-trip", back=back)
    raw = open(path, "rb").read()
    m.check((raw[:2] == b"\x1f\x8b") == gz, "compressed-if-requested")
    if not gz:
        ok, v = m.returns(lambda: pickle.loads(raw), "standard-pickle")
        ok and m.check(same(obj, v), "standard-pickle")
    m.count("pickle round trips")


@workload(quick=500, thorough=5000)
def paths(rng, m):
    stem = "".join(gen.pick(rng, ("a", "B", "_", "-", " ", "é", "0")) for _ in range(rng.integers(1, 6)))
    exts = ["".join(gen.pick(rng, ("t", "x", "1", " ")) for _ in range(rng.integers(0, 4))) for _ in range(rng.integers(0, 4))]
    folder = "".join(gen.pick(rng, ("a/", "b.c/", "../", "./", "é.x.y/")) for _ in range(rng.integers(0, 4)))
    path = folder + ".".join([stem] + exts)
    m.case(path=path)
    m.count("paths")
    m.equal(helpers.strip_path(path), stem, "all-extensions")
    m.equal(helpers.strip_path(path, extensions=False), ".".join([stem] + exts), "no-extension")
    n = int(rng.integers(0, 5))
    m.equal(helpers.strip_path(path, extensions=n), ".".join(([stem] + exts)[: max(1, len(exts) + 1 - n)]), "some-extensions", n=n)


@workload(quick=400, thorough=4000)
def native(rng, m):
    k = gen.pick(rng, ("array", "scalar", "plain"))
    if k == "array":
        a = rng.normal(size=tuple(rng.integers(0, 4, rng.integers(0, 4)))) * 100
        a = a.astype(gen.pick(rng, ("f8", "f4", "i4", "u1", "b1", "i8")))
        e = a.tolist()
    elif k == "scalar":
        a = gen.pick(rng, (np.float64(1.5), np.float32(0.1), np.int16(-3), np.bool_(True), np.str_("x y"), np.uint64(2**63)))
        e = a.item()
    else:
        a = gen.pick(rng, (1, 2.5, "x", None, [1, 2], (1, 2), {"a": 1}, True, b"x"))
        e = copy.deepcopy(a)
    m.case(x=a)
    out = m.call(helpers.numpy_to_native, a)
    m.check(same(out, e), "native-value", out=out, e=e)
    m.check("numpy" not in type(out).__module__, "native-type", out=out)
    m.count("native values")
