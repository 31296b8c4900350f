import io
import os
import warnings
import xml.etree.ElementTree as ET
import numpy as np
from gmon import META, workload, gen, scratch
from glimpse import svg

META["rule"] = (
    "A case is a random SVG document (nested groups, transform lists, every supported element, path commands in absolute and "
    "relative form, number and separator formats, image placement, keys) or random geometry written and read back. The oracle "
    "composes transforms as 3 x 3 matrices and follows the path grammar of the SVG standard. Non-trivial if the document has an element."
)
META["require"] = {
    "documents": 300, "vertices": 5000, "nested transforms": 200, "path commands": 3000, "subpaths": 200, "documents with image": 150,
    "resized documents": 60, "round trips": 500, "rejected documents": 100, "arcs": 200, "unseparated numbers": 500,
}
META["assumptions"] = [
    "image elements are placed by translation and positive scaling only (the coordinate frame of a rotated image is not documented)",
    "percentages, units, rotate and skew functions and the viewBox are outside the documented scope",
    "the order within a transform list is judged on documents read, not on Points.transform, whose documented example applies it in the order written",
]


class Writer:
    """Formats numbers and joins them as sequences allowed by the grammar."""

    def __init__(self, rng, m):
        self.rng, self.m, self.plain = rng, m, rng.random() < 0.3

    def value(self, big=False):
        r = self.rng
        if r.random() < 0.35:
            return int(r.integers(-50, 800 if big else 50))
        return float(np.round(r.normal(0, 300 if big else 20), int(r.integers(1, 5))))

    def num(self, v):
        r = self.rng
        if isinstance(v, int):
            s = str(v)
            k = r.random()
            if not self.plain and k < 0.1:
                s += ".0"
            elif not self.plain and k < 0.15:
                s += "."
            elif not self.plain and k < 0.2:
                s += "e0"
        else:
            s = repr(v)
            k = r.random()
            if "e" not in s and not self.plain:
                if k < 0.3 and s.lstrip("-").startswith("0.") and len(s.lstrip("-")) > 2:
                    s = s.replace("0.", ".", 1)
                elif k < 0.4:
                    s = "%.12e" % v
                elif k < 0.5:
                    s = ("%.12e" % v).upper()
                elif k < 0.55:
                    s += "00"
        if not self.plain and not s.startswith("-") and r.random() < 0.05:
            s = "+" + s
        return s

    def join(self, strs):
        out = ""
        for s in strs:
            if out:
                prev = out.rsplit(" ", 1)[-1].rsplit(",", 1)[-1]
                glue = s[0] in "+-" or (s[0] == "." and ("." in self.last or "e" in self.last.lower()))
                if glue and not self.plain and self.rng.random() < 0.6:
                    self.m.count("unseparated numbers")
                else:
                    out += gen.pick(self.rng, (" ", ",", " ", ", ", " , ", "\n  "))
            out += s
            self.last = s
        return out

    def nums(self, values):
        return self.join([self.num(v) for v in values])


def matrix(a, b, c, d, e, f):
    return np.array([[a, c, e], [b, d, f], [0, 0, 1]], dtype=float)


def _transform(rng, w, m, aligned):
    """Returns transform attribute and its matrix."""
    if rng.random() < 0.35:
        return None, np.eye(3)
    txt, M = [], np.eye(3)
    for _ in range(int(rng.integers(1, 4))):
        k = gen.pick(rng, ("translate", "scale") if aligned else ("translate", "scale", "matrix"))
        if k == "translate":
            p = [w.value() for _ in range(rng.integers(1, 3))]
            T = matrix(1, 0, 0, 1, p[0], p[1] if len(p) > 1 else 0)
        elif k == "scale":
            p = [float(np.round(gen.loguniform(rng, 0.3, 3), 3)) for _ in range(rng.integers(1, 3))]
            if not aligned and rng.random() < 0.3:
                p[0] = -p[0]
            T = matrix(p[0], 0, 0, p[-1], 0, 0)
        else:
            p = [float(v) for v in np.round(rng.normal(0, 1, 4), 3)] + [w.value(), w.value()]
            T = matrix(*p)
        txt.append(k + gen.pick(rng, ("", "", " ")) + "(" + gen.pick(rng, ("", " ")) + w.nums(p) + gen.pick(rng, ("", " ")) + ")")
        M = M @ T
    return gen.pick(rng, ("", " ", ", ", "\n")).join(txt), M


def _path(rng, w, m):
    """Returns path data and vertices, by the SVG path grammar."""
    parts, xy = [], []
    cur = start = (0, 0)
    n = int(rng.integers(1, 9))
    for i in range(n):
        cmd = "M" if i == 0 else gen.pick(rng, ("M", "L", "L", "T", "H", "V", "C", "S", "Q", "A", "Z"))
        rel = bool(rng.random() < 0.5)
        reps = 1 if cmd == "Z" or rng.random() < 0.6 else int(rng.integers(2, 4))
        tokens = []
        for j in range(reps):
            bx, by = cur if rel else (0, 0)
            if cmd in "MLT":
                p = [w.value(), w.value()]
                tokens += [w.num(v) for v in p]
                cur = (bx + p[0], by + p[1])
                if cmd == "M" and j == 0:
                    start = cur
                    m.count("subpaths", i > 0)
            elif cmd == "H":
                p = [w.value()]
                tokens += [w.num(p[0])]
                cur = (bx + p[0], cur[1])
            elif cmd == "V":
                p = [w.value()]
                tokens += [w.num(p[0])]
                cur = (cur[0], by + p[0])
            elif cmd in "CSQ":
                p = [w.value() for _ in range(6 if cmd == "C" else 4)]
                tokens += [w.num(v) for v in p]
                cur = (bx + p[-2], by + p[-1])
            elif cmd == "A":
                p = [abs(w.value()), abs(w.value()), w.value()]
                end = [w.value(), w.value()]
                flags = [str(int(v)) for v in rng.integers(0, 2, 2)]
                if not w.plain and rng.random() < 0.3:
                    tokens += [w.num(v) for v in p] + [flags[0] + flags[1] + w.num(end[0]).lstrip("+"), w.num(end[1])]
                else:
                    tokens += [w.num(v) for v in p] + flags + [w.num(v) for v in end]
                cur = (bx + end[0], by + end[1])
                m.count("arcs")
            else:
                cur = start
            xy.append(cur)
        letter = cmd.lower() if rel else cmd
        gap = "" if w.plain is False and rng.random() < 0.5 else " "
        parts.append(letter + (gap + w.join(tokens) if tokens else ""))
        m.count("path commands")
    d = gen.pick(rng, ("", " ", "\n")).join(parts) if not w.plain else " ".join(parts)
    return gen.pick(rng, ("", "", " ", "\n   ")) + d + gen.pick(rng, ("", "", " ", "\n")), xy


def _element(rng, w, m):
    """Returns tag, attributes and vertices."""
    tag = gen.pick(rng, ("path", "path", "path", "polyline", "polygon", "line", "circle", "rect"))
    if tag == "path":
        d, xy = _path(rng, w, m)
        return tag, {"d": d, "style": "fill:none"}, xy
    if tag in ("polyline", "polygon"):
        p = [w.value() for _ in range(2 * int(rng.integers(1, 6)))]
        xy = list(zip(p[::2], p[1::2]))
        if tag == "polygon" and len(xy) > 1 and rng.random() < 0.2:
            xy.append(xy[0])
            p += p[:2]
        attrs = {"points": gen.pick(rng, ("", " ")) + w.nums(p)}
        if tag == "polygon" and xy[0] != xy[-1]:
            xy = xy + [xy[0]]
        return tag, attrs, xy
    names = {"line": ("x1", "y1", "x2", "y2"), "circle": ("cx", "cy"), "rect": ("x", "y", "width", "height")}[tag]
    v = {k: w.value() for k in names}
    attrs = {k: w.num(x) for k, x in v.items()}
    for k in names:
        if k not in ("width", "height") and rng.random() < 0.15:
            v[k] = 0
            del attrs[k]
    if tag == "line":
        return tag, attrs, [(v["x1"], v["y1"]), (v["x2"], v["y2"])]
    if tag == "circle":
        return tag, {**attrs, "r": "3"}, [(v["cx"], v["cy"])]
    x, y, ww, h = (v[k] for k in names)
    return tag, {**attrs, "rx": "1"}, [(x, y), (x + ww, y), (x + ww, y + h), (x, y + h), (x, y)]


class Doc:
    def __init__(self, rng, m, image, key):
        self.rng, self.m, self.w, self.key = rng, m, Writer(rng, m), key
        self.n = 0
        self.images = []
        self.with_image = image

    def name(self, tag, attrs):
        if self.rng.random() < 0.6:
            attrs["id"] = gen.pick(self.rng, ("a", "b", "gcp", "path", "x-%d" % self.n))
            self.n += 1
        if self.rng.random() < 0.1:
            attrs["class"] = gen.pick(self.rng, ("k1", "k2"))
        return attrs.get(self.key) if self.key and attrs.get(self.key) else tag

    def node(self, depth, M, aligned, nt=0):
        """Returns XML, name, value (vertices or dictionary)."""
        rng = self.rng
        if depth and rng.random() < (0.35 if depth < 3 else 0):
            t, T = _transform(rng, self.w, self.m, aligned)
            attrs = {}
            name = self.name("g", attrs)
            if t:
                attrs["transform"] = t
            return self.group("g", attrs, depth, M @ T, aligned, nt + (t is not None)) + (name,)
        if rng.random() < 0.06:
            attrs = {}
            name = self.name("text", attrs)
            return self.xml("text", attrs, "hello"), {}, name
        t, T = _transform(rng, self.w, self.m, False)
        tag, attrs, xy = _element(rng, self.w, self.m)
        name = self.name(tag, attrs)
        if t:
            attrs["transform"] = t
        self.m.count("nested transforms", nt + (t is not None) > 1)
        return self.xml(tag, attrs), (xy, M @ T), name

    def image(self, M, nt):
        t, T = _transform(self.rng, self.w, self.m, True)
        w, h = (self.w.value(True) for _ in range(2))
        w, h = abs(w) + 1, abs(h) + 1
        x, y = self.w.value(), self.w.value()
        attrs = {"width": self.w.num(w), "height": self.w.num(h), "href": "a.jpg"}
        if self.rng.random() < 0.6:
            attrs.update(x=self.w.num(x), y=self.w.num(y))
        else:
            x = y = 0
        name = self.name("image", attrs)
        if t:
            attrs["transform"] = t
        p = (M @ T @ np.array([[x, x + w], [y, y + h], [1, 1]], dtype=float))[:2]
        self.images.append(((w, h), p[:, 0], p[:, 1] - p[:, 0]))
        return self.xml("image", attrs), ([(x, y), (x + w, y), (x + w, y + h), (x, y + h), (x, y)], M @ T), name

    def group(self, tag, attrs, depth, M, aligned, nt):
        kids = [self.node(depth + 1, M, aligned, nt) for _ in range(int(self.rng.integers(0 if depth else 1, 5)))]
        if self.with_image and not self.images and aligned and self.rng.random() < 0.5:
            kids.insert(int(self.rng.integers(len(kids) + 1)), self.image(M, nt))
        if tag == "svg" and self.with_image and not self.images:
            kids.insert(0, self.image(M, nt))
        if tag == "svg" and self.with_image and self.rng.random() < 0.15:
            kids.append(self.image(M, nt))
        d = {}
        for _, v, n in kids:
            d.setdefault(n, []).append(v)
        d = {k: v[0] if len(v) == 1 else v for k, v in d.items()}
        return self.xml(tag, attrs, "".join(k[0] for k in kids)), d

    def xml(self, tag, attrs, body=""):
        from xml.sax.saxutils import quoteattr

        attrs = list(attrs.items())
        self.rng.shuffle(attrs)
        a = "".join(" %s=%s" % (k, quoteattr(v)) for k, v in attrs)
        p = self.prefix if hasattr(self, "prefix") else ""
        nl = "\n" if self.rng.random() < 0.3 else ""
        return f"<{p}{tag}{a}/>{nl}" if not body and self.rng.random() < 0.7 else f"<{p}{tag}{a}>{body}</{p}{tag}>{nl}"


def _expect(v, f):
    if isinstance(v, tuple):
        return f(*v)
    if isinstance(v, list):
        return [_expect(x, f) for x in v]
    return {k: _expect(x, f) for k, x in v.items()}


def _compare(m, a, e, where=""):
    if isinstance(e, np.ndarray):
        if not (isinstance(a, list) and len(a) == len(e) and all(isinstance(p, tuple) and len(p) == 2 for p in a)):
            return m.fail("vertices/form", where=where, actual=a, expected=e)
        m.count("vertices", len(e))
        tol = 1e-8 * max(1.0, float(np.abs(e).max()) if e.size else 1.0) * 10
        return m.close(np.array(a, dtype=float).reshape(-1, 2), e, "vertices", rtol=1e-8, atol=tol, where=where)
    if isinstance(e, list):
        if not m.check(isinstance(a, list) and len(a) == len(e), "repeated-names", where=where, actual=a, expected=e):
            return False
        return all([_compare(m, x, y, f"{where}[{i}]") for i, (x, y) in enumerate(zip(a, e))])
    if not m.check(isinstance(a, dict) and list(a) == list(e), "names", where=where, actual=a, expected=e):
        return False
    return all([_compare(m, a[k], e[k], f"{where}/{k}") for k in e])


@workload(quick=700, thorough=10000)
def documents(rng, m):
    image = bool(rng.random() < 0.55)
    key = gen.pick(rng, (None, None, "id", "class"))
    doc = Doc(rng, m, image, key)
    doc.prefix = gen.pick(rng, ("", "", "", "s:"))
    attrs = {"width": "100", "height": "80", "version": "1.1"}
    ns = gen.pick(rng, ("", "http://www.w3.org/2000/svg")) or ("http://www.w3.org/2000/svg" if doc.prefix else "")
    if ns:
        attrs["xmlns:s" if doc.prefix else "xmlns"] = ns
    xml, value = doc.group("svg", attrs, 0, np.eye(3), True, 0)
    xml = gen.pick(rng, ("", '<?xml version="1.0"?>\n', "<!-- c -->")) + xml
    imgsz = None
    if image and rng.random() < 0.4:
        imgsz = tuple(int(v) for v in rng.integers(1, 2000, 2)) if rng.random() < 0.8 else (1e3, 0.5)
        m.count("resized documents")
    m.case(xml=xml, key=key, imgsz=imgsz)
    if image:
        size, o, s = doc.images[-1]
        k = np.array(imgsz if imgsz else size, dtype=float) / s
        m.count("documents with image")
    else:
        o, k = np.zeros(2), np.ones(2)

    def f(xy, M):
        p = (M @ np.column_stack([np.array(xy, dtype=float).reshape(-1, 2), np.ones(len(xy))]).T)[:2].T
        return (p - o) * k

    e = _expect(value, f)
    if rng.random() < 0.3:
        src = os.path.join(scratch(), "é x.svg")
        with open(src, "w", encoding="utf-8") as fp:
            fp.write(xml)
    else:
        src = io.StringIO(xml)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        kw = {} if imgsz is None and rng.random() < 0.5 else {"imgsz": imgsz}
        ok, out = m.returns(lambda: svg.read(src, **({"key": key} if key else {}), **kw), "reads")
    if len(doc.images) > 1:
        m.check(any(issubclass(x.category, UserWarning) and "image" in str(x.message) for x in ws), "warns-of-several-images")
    if ok:
        _compare(m, out, e)
    m.count("documents")


@workload(quick=500, thorough=6000)
def paths(rng, m):
    w = Writer(rng, m)
    d, xy = _path(rng, w, m)
    m.case(d=d)
    ok, p = m.returns(lambda: svg.Points.from_element("path", d=d, id="x"), "reads-path", d=d)
    if ok:
        m.close(np.array(p.xy, dtype=float).reshape(-1, 2), np.array(xy, dtype=float), "path-vertices", rtol=1e-9, atol=1e-8, d=d)
        m.count("vertices", len(xy))


def _xy(rng):
    n = int(rng.integers(0, 8)) if rng.random() < 0.7 else int(rng.integers(8, 200))
    k = gen.pick(rng, ("int", "float", "small", "mixed", "numpy"))
    if k == "int":
        xy = [tuple(int(v) for v in p) for p in rng.integers(-1000, 5000, (n, 2))]
    elif k == "mixed":
        xy = [(int(a), float(b)) for a, b in zip(rng.integers(-9, 9, n), rng.normal(0, 1, n))]
    elif k == "numpy":
        xy = [tuple(p) for p in rng.normal(0, 1000, (n, 2))]
    else:
        s = 1e-7 if k == "small" else 10.0 ** rng.integers(-3, 8)
        xy = [tuple(float(v) for v in p) for p in rng.normal(0, s, (n, 2))]
    if n > 2 and rng.random() < 0.3:
        xy[-1] = xy[0]
    return xy


def _box(xy):
    a = np.array(xy, dtype=float)
    (x, y), (x1, y1) = a.min(axis=0), a.max(axis=0)
    return [(x, y), (x1, y), (x1, y1), (x, y1), (x, y)]


def _same(m, got, e, mech, **kw):
    s = max([1e-300] + [abs(v) for p in e for v in p])
    return m.close(np.array(got, dtype=float).reshape(-1, 2), np.array(e, dtype=float).reshape(-1, 2), mech, rtol=1e-12, atol=1e-12 * s, **kw)


@workload(quick=700, thorough=8000)
def roundtrips(rng, m):
    xy = _xy(rng)
    tag = gen.pick(rng, ("path", "path", "path", "polyline", "polygon", "line", "circle", "rect", "image", "svg"))
    m.case(tag=tag, xy=xy)
    if not xy:
        m.trivial()
        if tag not in ("polyline", "path"):
            return
    if tag == "path":
        e = xy
    elif tag == "polyline":
        e = xy
    elif tag == "polygon":
        e = xy if len(xy) < 2 or xy[0] == xy[-1] else xy + [xy[0]]
    elif tag == "line":
        e = [xy[0], xy[-1]]
    elif tag == "circle":
        e = xy[:1]
    else:
        e = _box(xy)
    pts = svg.Points(list(xy))
    ok, attrs = m.returns(lambda: pts.to_element(tag), "writes-element", tag=tag)
    if not ok:
        return
    m.check(all(isinstance(v, str) for v in attrs.values()), "attributes-are-text", attrs=attrs)
    ok, back = m.returns(lambda: svg.Points.from_element(tag, **attrs), "reads-element", attrs=attrs)
    if ok:
        _same(m, back.xy, e, "element-round-trip", tag=tag, attrs=attrs)
        m.count("round trips")
    m.equal(pts.xy, list(xy), "points-unchanged")
    if tag != "path":
        return
    # Whole documents
    els = [svg.path(xy, id="p")] + [svg.path(_xy2, id="q") for _xy2 in ([(0, 1), (2, 3.5)],)]
    size = tuple(int(v) for v in rng.integers(1, 999, 2))
    img = svg.image(*size, href="a b.jpg" if rng.random() < 0.5 else None)
    doc = svg.svg(img, svg.g(*els, id="lines")) if rng.random() < 0.5 else svg.svg(svg.g(*els, id="lines"), img)
    m.equal((doc.get("width"), doc.get("height")), (str(size[0]), str(size[1])), "document-size")
    more = [svg.image(int(w), int(h)) for w, h in rng.integers(1, 999, (int(rng.integers(1, 4)), 2))]
    kids = [svg.image(*size)] + more if rng.random() < 0.5 else [svg.g(svg.image(*size), id="i")] + more
    several = svg.svg(*kids, id="d")
    m.equal((several.get("width"), several.get("height"), several.get("id")), (more[-1].get("width"), more[-1].get("height"), "d"), "document-fits-last-image")
    given = svg.svg(*kids, width="7", height="9")
    m.equal((given.get("width"), given.get("height")), ("7", "9"), "document-size-given")
    indent = gen.pick(rng, (None, 0, 2, 4, "\t", -1, ""))
    before = ET.tostring(doc)
    if rng.random() < 0.5:
        txt = svg.write(doc, indent=indent)
        src = io.StringIO(txt)
    else:
        src = os.path.join(scratch(), "x.svg")
        with open(src, "w") as fp:
            fp.write("old" * 1000)
        m.check(svg.write(doc, path=src, indent=indent) is None, "no-text-when-written")
        txt = open(src).read()
    m.equal(ET.tostring(doc), before, "document-unchanged-by-writing")
    if indent is None:
        m.check("\n" not in txt, "single-line", txt=txt)
    else:
        tab = indent if isinstance(indent, str) else " " * max(indent, 0)
        lines = txt.split("\n")
        m.equal(len(lines), 7, "one-line-per-tag", txt=txt)
        depth = {"<svg": 0, "</sv": 0, "<g i": 1, "</g>": 1, "<ima": 1, "<pat": 2}
        m.check(all(s == tab * depth.get(s.strip()[:4], 9) + s.strip() for s in lines), "indented", txt=txt)
    ok, out = m.returns(lambda: svg.read(src, key="id"), "reads-written", txt=txt)
    if ok:
        _same(m, out["lines"]["p"], xy, "document-round-trip")
        _same(m, out["lines"]["q"], [(0, 1), (2, 3.5)], "document-round-trip")
        _same(m, out["image"], [(0, 0), (size[0], 0), size, (0, size[1]), (0, 0)], "document-round-trip")
        m.count("round trips")


@workload(quick=250, thorough=3000)
def operations(rng, m):
    xy = _xy(rng)
    m.case(xy=xy)
    pts = svg.Points(list(xy))
    s, t, M = rng.uniform(0.2, 3, 2), rng.normal(0, 10, 2), [float(v) for v in rng.normal(0, 2, 6)]
    s, t = [float(v) for v in s], [float(v) for v in t]
    a = np.array(xy, dtype=float).reshape(-1, 2)
    _same(m, pts.scale(s[0]).xy, a * s[0], "scale")
    _same(m, pts.scale(*s).xy, a * s, "scale")
    _same(m, pts.scale(s[0], 0).xy, a * (s[0], 0), "scale")
    _same(m, pts.translate(t[0]).xy, a + (t[0], 0), "translate")
    _same(m, pts.translate(*t).xy, a + t, "translate")
    T = matrix(*M)
    e = (T @ np.column_stack([a, np.ones(len(a))]).T)[:2].T
    m.close(np.array(pts.matrix(*M).xy, dtype=float).reshape(-1, 2), e, "matrix", rtol=1e-9, atol=1e-9 * (1 + np.abs(a).max() if len(a) else 1))
    m.close(np.array(pts.transform("matrix(%r,%r %r,%r %r %r)" % tuple(M)).xy, dtype=float).reshape(-1, 2), e, "transform-matrix", rtol=1e-9, atol=1e-9 * (1 + np.abs(a).max() if len(a) else 1))
    _same(m, pts.transform("scale(%r %r)" % tuple(s)).xy, a * s, "transform-scale")
    _same(m, pts.transform("translate(%r)" % t[0]).xy, a + (t[0], 0), "transform-translate")
    _same(m, pts.transform("").xy, a, "transform-nothing")
    m.equal(pts.xy, list(xy), "points-unchanged")
    m.equal(pts.closed(), len(xy) < 2 or xy[0] == xy[-1], "closed")
    b = pts.bbox()
    if not xy:
        m.check(b is None, "bbox-of-nothing")
    else:
        m.close([b["x"], b["y"], b["width"], b["height"]], [*a.min(axis=0), *np.ptp(a, axis=0)], "bbox", rtol=1e-12, atol=1e-9)


@workload(quick=150, thorough=1000)
def rejected(rng, m):
    kind = gen.pick(rng, ("command", "transform", "element", "none", "several", "imgsz", "to"))
    x = gen.pick(rng, ("X", "B", "k", "R", "n"))
    f = gen.pick(rng, ("rotate", "skewX", "skewY", "magic"))
    m.case(kind=kind, x=x, f=f)
    fn = {
        "command": lambda: svg.read(io.StringIO(f"<svg><path d='M 0,0 {x} 1,1'/></svg>")),
        "transform": lambda: svg.read(io.StringIO(f"<svg><g transform='scale(2) {f}(30)'><path d='M 0,0'/></g></svg>")),
        "element": lambda: svg.Points.from_element(gen.pick(rng, ("ellipse", "text", "magic")), d="M 0,0"),
        "to": lambda: svg.Points([(0, 0)]).to_element("text"),
        "none": lambda: svg.read(io.StringIO("<xml><g/></xml>")),
        "several": lambda: svg.read(io.StringIO("<svg><g><svg/></g></svg>")),
        "imgsz": lambda: svg.read(io.StringIO("<svg><path d='M 0,0'/></svg>"), imgsz=(3, 4)),
    }[kind]
    m.raises(ValueError, fn, "rejects", kind=kind)
    m.count("rejected documents")
