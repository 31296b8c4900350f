import copy
import datetime
import os
import struct
import cv2
import numpy as np
import piexif
from gmon import META, workload, gen, scratch
from glimpse import Exif

META["rule"] = (
    "A case is a JPEG or WebP image with a random subset of metadata tags (values, missing tags, unknown ratios, byte order, "
    "fraction-of-second digits, thumbnail) that is parsed, then edited and re-inserted by a random sequence of edits. The "
    "oracle is the table of values that was stored, and the pixels and tags read by other libraries. Non-trivial if any tag is present."
)
META["require"] = {
    "parsed images": 400, "missing values": 400, "fractions of seconds": 150, "ratios without denominator": 40,
    "edits": 500, "insertions": 300, "rejected tags": 100, "thumbnails": 40, "little-endian files": 100, "sensor sizes": 100,
    "tags with several values": 40, "webp files": 20, "related tags": 500,
}
META["assumptions"] = ["text tags are valid UTF-8", "quantities of zero are not judged", "insertion keeps the image pixels, not the bytes of the file"]

E, Z = piexif.ExifIFD, piexif.ImageIFD
SENSORS = {
    ("NIKON CORPORATION", "NIKON D2X"): (23.7, 15.7), ("NIKON CORPORATION", "NIKON D200"): (23.6, 15.8),
    ("NIKON CORPORATION", "NIKON D300S"): (23.6, 15.8), ("NIKON", "E8700"): (8.8, 6.6),
    ("Canon", "Canon EOS 20D"): (22.5, 15.0), ("Canon", "Canon EOS 40D"): (22.2, 14.8),
}
PROPS = ("imgsz", "datetime", "exposure", "aperture", "iso", "fmm", "make", "model", "sensorsz")


def _time(rng):
    t = datetime.datetime(1980, 1, 1) + datetime.timedelta(seconds=int(rng.integers(0, 3 * 10**9)))
    if rng.random() < 0.2:
        t = t.replace(hour=0, minute=0, second=0)
    return t


def _rational(rng, m):
    n, d = int(rng.integers(1, gen.pick(rng, (10, 1000, 2**32 - 1)))), int(rng.integers(1, gen.pick(rng, (2, 100, 2**32 - 1))))
    if rng.random() < 0.1:
        m.count("ratios without denominator")
        return (n, 0), None
    return (n, d), n / d


def _tags(rng, m):
    """Random tags and the values they stand for."""
    zeroth, exif, e = {}, {}, dict.fromkeys(PROPS)
    has = lambda p=0.75: rng.random() < p
    if has():
        w, h = (int(v) for v in rng.integers(1, gen.pick(rng, (100, 70000)), 2))
        exif[E.PixelXDimension], exif[E.PixelYDimension] = w, h
        if rng.random() < 0.15:
            exif.pop(gen.pick(rng, (E.PixelXDimension, E.PixelYDimension)))
        else:
            e["imgsz"] = (w, h)
    if has():
        t = _time(rng)
        exif[E.DateTimeOriginal] = t.strftime("%Y:%m:%d %H:%M:%S").encode() if t.year > 999 else b""
        if rng.random() < 0.7:
            n = int(rng.integers(1, 10))
            digits = "".join(str(int(v)) for v in rng.integers(0, 10, n))
            pad = gen.pick(rng, ("", "", " ", "   "))
            if rng.random() < 0.1:
                digits, pad = "", "   "
            exif[E.SubSecTimeOriginal] = (digits + pad).encode()
            t = t + datetime.timedelta(microseconds=int((digits + "000000")[:6]))
            m.count("fractions of seconds")
        e["datetime"] = t
    elif rng.random() < 0.3:
        exif[E.SubSecTimeOriginal] = b"12"
    for name, code in (("exposure", E.ExposureTime), ("aperture", E.FNumber), ("fmm", E.FocalLength)):
        if has():
            exif[code], e[name] = _rational(rng, m)
    if has():
        e["iso"] = int(rng.integers(1, 65536))
        exif[E.ISOSpeedRatings] = e["iso"]
        if rng.random() < 0.2:
            exif[E.ISOSpeedRatings] = (e["iso"], int(rng.integers(0, 5)))
            m.count("tags with several values")
    if has(0.9):
        if rng.random() < 0.7:
            make, model = gen.pick(rng, tuple(SENSORS))
        else:
            make, model = gen.pick(rng, (("Acmé", "Snow 雪"), ("NIKON CORPORATION", "Other"), ("Canon", "NIKON D200"), ("x", "y z")))
        sp = gen.pick(rng, ("", "", " ", "  "))
        keep = gen.pick(rng, ((1, 1), (1, 1), (1, 1), (1, 0), (0, 1)))
        if keep[0]:
            zeroth[Z.Make], e["make"] = (make + sp).encode(), make + sp
        if keep[1]:
            zeroth[Z.Model], e["model"] = (sp + model).encode(), sp + model
        if all(keep):
            e["sensorsz"] = SENSORS.get((make, model))
            m.count("sensor sizes", e["sensorsz"] is not None)
    if rng.random() < 0.4:
        # Related quantities, which are not those asked for
        n = int(rng.integers(1, 60000))
        t = _time(rng).strftime("%Y:%m:%d %H:%M:%S").encode()
        for group, code, value in (
            (exif, E.LensMake, b"Lensco"), (exif, E.LensModel, b"50mm f/1.8"), (exif, E.ApertureValue, (n, 7)),
            (exif, E.MaxApertureValue, (n, 3)), (exif, E.FocalLengthIn35mmFilm, n), (exif, E.DateTimeDigitized, t),
            (exif, E.SubSecTime, b"77"), (exif, E.SubSecTimeDigitized, b"88"), (exif, E.ISOSpeed, n), (exif, E.ExposureIndex, (n, 9)),
            (exif, E.RecommendedExposureIndex, n), (exif, E.CameraOwnerName, b"Someone"), (zeroth, Z.DateTime, t),
            (zeroth, Z.ImageWidth, n), (zeroth, Z.ImageLength, n + 1), (zeroth, Z.UniqueCameraModel, b"Unique"),
            (zeroth, Z.HostComputer, b"Host"), (zeroth, Z.Software, b"Soft"), (zeroth, Z.XResolution, (n, 5)),
        ):
            if rng.random() < 0.6:
                group[code] = value
                m.count("related tags")
    return {"0th": zeroth, "Exif": exif}, e


def _little(tags):
    """Encode tags by hand in little-endian byte order."""
    def ifd(entries, offset):
        body, data = b"", b""
        base = offset + 2 + 12 * len(entries) + 4
        for code, typ, count, raw in sorted(entries):
            if len(raw) <= 4:
                v = raw + b"\0" * (4 - len(raw))
            else:
                v = struct.pack("<L", base + len(data))
                data += raw + b"\0" * (len(raw) % 2)
            body += struct.pack("<HHL", code, typ, count) + v
        return struct.pack("<H", len(entries)) + body + b"\0\0\0\0" + data

    def entries(group, name):
        out = []
        for code, v in group.items():
            typ = piexif.TAGS[name][code]["type"]
            if typ == 2:
                out.append((code, 2, len(v) + 1, v + b"\0"))
            elif typ == 5:
                out.append((code, 5, 1, struct.pack("<LL", *v)))
            else:
                vs = v if isinstance(v, tuple) else (v,)
                out.append((code, typ, len(vs), b"".join(struct.pack("<H" if typ == 3 else "<L", x) for x in vs)))
        return out

    z = entries(tags["0th"], "0th")
    n = len(ifd(z + [(Z.ExifTag, 4, 1, b"1234")], 8))
    first = ifd(z + [(Z.ExifTag, 4, 1, struct.pack("<L", 8 + n))], 8)
    return b"Exif\0\0" + b"II*\0" + struct.pack("<L", 8) + first + ifd(entries(tags["Exif"], "Exif"), 8 + n)


def _image(rng, ext=".jpg"):
    path = os.path.join(scratch(), "é x" + ext)
    nx, ny = (int(v) for v in rng.integers(1, 40, 2))
    assert cv2.imwrite(path, rng.integers(0, 256, (ny, nx, 3)).astype("u1"))
    return path


def _judge(m, exif, e, what):
    for name in PROPS:
        ok, v = m.returns(lambda: getattr(exif, name), f"{what}:{name}")
        if not ok:
            continue
        m.count("missing values", e[name] is None)
        if isinstance(e[name], float):
            m.check(isinstance(v, float) and abs(v - e[name]) <= 1e-15 * abs(e[name]) * 4, f"{what}:{name}", got=v, expected=e[name])
        else:
            m.check(v == e[name] and type(v) is type(e[name]), f"{what}:{name}", got=v, expected=e[name])


@workload(quick=700, thorough=10000)
def parsing(rng, m):
    tags, e = _tags(rng, m)
    path = _image(rng)
    how = gen.pick(rng, ("big", "big", "little", "none"))
    m.case(tags=tags, how=how)
    if how == "big":
        piexif.insert(piexif.dump(copy.deepcopy(tags)), path)
    elif how == "little":
        piexif.insert(_little(tags), path)
        m.count("little-endian files")
    else:
        e = dict.fromkeys(PROPS)
        m.trivial()
    ok, exif = m.returns(lambda: Exif(path, **({"thumbnail": True} if rng.random() < 0.2 else {})), "reads")
    if not ok:
        return
    _judge(m, exif, e, "parsed")
    m.count("parsed images")
    # Editing tags in place is reflected at once
    if rng.random() < 0.5:
        tags2, e2 = _tags(rng, m)
        exif.tags = {g: {piexif.TAGS[g][c]["name"]: v for c, v in t.items()} for g, t in tags2.items() if t or rng.random() < 0.5}
        _judge(m, exif, e2, "edited")


@workload(quick=300, thorough=5000)
def single_tags(rng, m):
    """Tags of every type and group parse to their stored value."""
    path = _image(rng)
    tags, e = {}, []
    for g in ("0th", "Exif", "GPS", "Interop"):
        codes = [c for c, t in piexif.TAGS[g].items() if t["type"] in (2, 3, 4, 5, 10) and c not in (
            Z.ExifTag, Z.GPSTag, E.InteroperabilityTag, Z.JPEGInterchangeFormat, Z.JPEGInterchangeFormatLength)]
        tags[g] = {}
        for c in rng.choice(codes, min(4, len(codes)), replace=False):
            c = int(c)
            t = piexif.TAGS[g][c]["type"]
            v = x = None
            if t == 2:
                x = "".join(gen.pick(rng, "ab cé雪0") for _ in range(rng.integers(1, 8)))
                v = x.encode()
            elif t in (3, 4):
                n = gen.pick(rng, (1, 1, 2, 2, 3))
                v = tuple(int(k) for k in rng.integers(0, 2 ** (16 if t == 3 else 32), n))
                m.count("tags with several values", n == 2)
                v = x = v[0] if n == 1 else v
            else:
                lo = 0 if t == 5 else -(2**31)
                if rng.random() < 0.2:
                    v = x = tuple((int(a), int(b)) for a, b in rng.integers(0, 1000, (3, 2)))
                else:
                    v = (int(rng.integers(lo, 2**31)), int(rng.integers(0 if rng.random() < 0.2 else 1, 2 if rng.random() < 0.4 else 2**31)))
                    x = v[0] / v[1] if v[1] else None
                    m.count("ratios without denominator", v[1] == 0)
            tags[g][c] = v
            e.append((g, piexif.TAGS[g][c]["name"], x))
    m.case(tags=tags)
    piexif.insert(piexif.dump(copy.deepcopy(tags)), path)
    exif = Exif(path)
    for g, name, x in e:
        ok, v = m.returns(lambda: exif.parse_tag(name, group=g), "parses-tag", tag=name, group=g)
        ok and m.check(v == x and type(v) is type(x), "tag-value", tag=name, group=g, got=v, expected=x)
    if rng.random() < 0.5:
        m.check(exif.parse_tag("NotATag") is None, "missing-tag")
        m.check(exif.parse_tag("Make", group="NotAGroup") is None, "missing-group")
        m.check(exif.parse_tag("MeteringMode", group="0th") is None, "tag-of-another-group")


def _read_all(path):
    return {g: {piexif.TAGS[g][c]["name"]: v for c, v in t.items()} for g, t in piexif.load(path).items() if isinstance(t, dict)}


@workload(quick=400, thorough=6000)
def editing(rng, m):
    webp = rng.random() < 0.12
    path = _image(rng, ".webp" if webp else ".jpg")
    m.count("webp files", webp)
    tags, e = _tags(rng, m)
    thumb = not webp and rng.random() < 0.25
    if thumb:
        data = cv2.imencode(".jpg", rng.integers(0, 256, (8, 8, 3)).astype("u1"))[1].tobytes()
        tags["1st"] = {Z.Make: b"thumb", Z.XResolution: (72, 1)}
        tags["thumbnail"] = data
        m.count("thumbnails")
    piexif.insert(piexif.dump(copy.deepcopy(tags)), path)
    if thumb:
        data = piexif.load(path)["thumbnail"]
    pixels = cv2.imread(path, cv2.IMREAD_UNCHANGED | cv2.IMREAD_IGNORE_ORIENTATION)
    keep = bool(rng.random() < 0.6)
    exif = Exif(path, thumbnail=keep)
    m.check(("thumbnail" in exif.tags and "1st" in exif.tags) == keep, "thumbnail-kept-if-asked")
    if keep and thumb:
        m.equal(exif.tags["thumbnail"], data, "thumbnail-bytes")
        ok, v = m.returns(lambda: (exif.parse_tag("XResolution", "1st"), exif.parse_tag("Make", group="1st")), "parses-tag", group="1st")
        ok and m.equal(v, (72.0, "thumb"), "tag-value", group="1st")
    log = []
    for _ in range(int(rng.integers(1, 4))):
        for _ in range(int(rng.integers(1, 5))):
            op = gen.pick(rng, ("set", "set", "delete", "gps", "swap", "noop"))
            log.append(op)
            m.count("edits")
            if op == "set":
                new, _ = _tags(rng, m)
                for g in ("0th", "Exif"):
                    named = {piexif.TAGS[g][c]["name"]: v for c, v in new[g].items()}
                    for k in list(named)[: int(rng.integers(0, 4))]:
                        exif.tags.setdefault(g, {})[k] = named[k]
            elif op == "delete":
                g = gen.pick(rng, ("0th", "Exif"))
                names = [k for k in exif.tags.get(g, {}) if k not in ("ExifTag", "GPSTag")]
                if names:
                    del exif.tags[g][names[rng.integers(len(names))]]
            elif op == "gps":
                exif.tags["GPS"] = {"GPSLatitudeRef": b"N", "GPSLatitude": tuple((int(v), 100) for v in rng.integers(0, 5000, 3)), "GPSAltitude": (int(rng.integers(0, 9000)), 7)}
            elif op == "swap":
                exif.tags.setdefault("0th", {})["Orientation"] = int(rng.integers(1, 9))
        before = copy.deepcopy(exif.tags)
        if rng.random() < 0.3:
            raw = open(path, "rb").read()
            bad = gen.pick(rng, ("group", "tag", "other"))
            if bad == "group":
                exif.tags["Unknown"] = {"Make": b"x"}
            elif bad == "tag":
                exif.tags.setdefault("Exif", {})["Unknown"] = 1
            else:
                exif.tags.setdefault("GPS", {})["PixelXDimension"] = 1
            m.raises(ValueError, lambda: exif.insert(path), "rejects-invalid", bad=bad)
            m.raises(ValueError, lambda: exif.dump(), "rejects-invalid", bad=bad)
            m.equal(open(path, "rb").read(), raw, "rejected-leaves-image")
            m.count("rejected tags")
            exif.tags = copy.deepcopy(before)
            log.append("rejected")
        ok, _ = m.returns(lambda: exif.insert(path), "inserts", log=log, tags=exif.tags)
        if not ok:
            return
        m.count("insertions")
        m.equal(exif.tags, before, "tags-unchanged-by-insertion")
        after = cv2.imread(path, cv2.IMREAD_UNCHANGED | cv2.IMREAD_IGNORE_ORIENTATION)
        m.equal(after, pixels, "pixels-unchanged")
        stored = _read_all(path)
        for g in ("0th", "Exif", "GPS", "Interop"):
            a = {k: v for k, v in stored[g].items() if k not in ("ExifTag", "GPSTag", "InteroperabilityTag")}
            b = {k: v for k, v in before.get(g, {}).items() if k not in ("ExifTag", "GPSTag", "InteroperabilityTag")}
            m.check(a == b, "stored-tags", group=g, stored=a, expected=b)
        fresh = Exif(path, thumbnail=keep)
        for name in PROPS:
            m.check(getattr(fresh, name) == getattr(exif, name), "reads-back", name=name, got=getattr(fresh, name), expected=getattr(exif, name))
        if thumb:
            m.equal(piexif.load(path)["thumbnail"], data if keep else None, "thumbnail-follows-tags")
        if rng.random() < 0.5:
            exif = fresh
    m.case(tags=tags, log=log, keep=keep)
