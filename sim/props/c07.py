"""Torn files: refused, or read as a leading part."""
import io
import os
import re
import zipfile

from sim import ops as O
from sim import runtime as rt
from sim import vocab as V

ID = "C07"
LEVEL = "exploration"
WIDE = 0.01
RUNS = {"quick": 8000, "thorough": 100000}
RULE = ("a generated document is stored as .kml (several layouts, or written by the library itself) or .kmz and cut at up to "
        "16 seeded byte positions (uniform, and next to the boundaries of tags and values); every torn file is read with "
        "one of the back ends, strict or lenient, validating or not, from a path or a stream. The result must be an "
        "exception or a leading part of the document, computed from the cut position. Non-trivial: at least one torn file "
        "was accepted.")
DISTINCT = "hash of document, layout, cut positions and outcomes"
REAL = ["fastkml reading (and writing, for some files)", "lxml / xml.etree parsers", "zipfile", "kernel file system (scratch directory)"]
STUB = ["the crash that tears the file (the stored bytes are cut)"]
ASSUME = ["a crash loses a tail of the file and nothing else"]
ALWAYS = {"KML", "Document", "Folder", "Placemark", "GroundOverlay", "ScreenOverlay", "PhotoOverlay", "NetworkLink"}


def gen(r, tier):
    return {"spec": V.gen_kml(r, r.choice((0.05, 0.2, 0.5)), valid=r.random() < 0.5), "pretty": r.random() < 0.5,
            "style": r.choice(("default", "prefix")), "kmz": r.random() < 0.08, "decl": r.choice((None, None, "utf-8")),
            "cuts": [gen_cut(r) for _ in range(r.choice((4, 16, 16)))]}


def gen_cut(r):
    k = r.random()
    return {"at": r.random(), "how": "uniform" if k < 0.4 else "edge", "shift": r.choice((-2, -1, 0, 1, 2)),
            "strict": r.random() < 0.3, "validate": r.choice((None, False, False)), "backend": r.choice(("lxml", "lxml", "lxml", "et")),
            "src": r.choice(("path", "stream"))}


# ---------------------------------------------------------------- offsets
class T:
    """Offsets of an element: start, end of start tag, end of text, end."""
    __slots__ = ("n", "s", "se", "te", "e", "kids")


def annotate(n, text, pos):
    """Find the element of node n in text from pos on; returns T."""
    t = T()
    t.n = n
    t.s = text.index("<", pos)
    q = False
    i = t.s
    while True:
        c = text[i]
        if c == '"':
            q = not q
        elif c == ">" and not q:
            break
        i += 1
    t.se = i + 1
    t.kids = []
    if text[i - 1] == "/":
        t.te = t.e = t.se
        return t
    t.te = text.index("<", t.se)
    p = t.se
    for k in n.kids:
        kt = annotate(k, text, p)
        t.kids.append(kt)
        p = kt.e
    if n.kids:
        t.te = t.kids[0].s
    close = text.index("</", p)
    t.e = text.index(">", close) + 1
    return t


def edges(t, out):
    out += [t.s, t.se, t.te, t.e]
    for k in t.kids:
        edges(k, out)
    return out


# ---------------------------------------------------------------- oracle
def check(spec, t, got, c, path=""):
    """Problem of `got` as a leading part of spec cut at character c (the element is open at c)."""
    cls = spec["c"]
    path += "/" + cls
    if got["c"] != cls:
        return "%s: is a %s" % (path, got["c"])
    seen = set()
    kids = iter(t.kids)
    started = t.se <= c
    for f in V.CLASSES[cls][4]:
        v = spec["f"].get(f.attr)
        if v is None:
            continue
        seen.add(f.attr)
        g = got["f"].get(f.attr)
        p = path + "." + f.attr
        if f.how == "a":
            if started:
                bad = exact(f, v, g, p)
            else:
                bad = None if g is None or part_value(f, v, g) else "%s: %r is not a leading part of %r" % (p, g, v)
        elif f.how == "t":
            if t.te < c and started:
                bad = exact(f, v, g, p)
            else:
                bad = None if g is None or part_value(f, v, g) else "%s: %r is not a leading part of %r" % (p, g, v)
        elif f.how == "s":
            k = next(kids)
            if k.e <= c:
                bad = exact(f, v, g, p)
            elif k.s >= c or k.se > c:
                bad = None if g is None else "%s: %r was not stored before the cut" % (p, g)
            else:
                bad = None if g is None or part_value(f, v, g) else "%s: %r is not a leading part of %r" % (p, g, v)
        elif f.how == "c":
            bad = child(v, next(kids), g, c, p)
        elif f.how == "l":
            ks = [next(kids) for _ in v]
            bad = children(v, ks, g or [], c, p, any(k.s < c < k.se for k in t.kids))
        elif f.how == "x":
            k = next(kids)
            if k.e <= c:
                bad = exact_coords(v, g, p)
            elif k.se > c:
                bad = None if not g else "%s: was not stored before the cut" % p
            else:
                bad = part_coords(v, g or [], p)
        else:
            ks = [next(kids) for _ in range(len(v) * (3 if any(it[2] is not None for it in v) else 2))]
            bad = part_track(v, ks, g or [], c, p)
        if bad:
            return bad
    torn = any(k.s < c < k.se for k in t.kids)
    extra = {a for a in set(got["f"]) - seen if not (torn and cut_name(got["f"][a]))}
    if extra:
        a = sorted(extra)[0]
        return "%s.%s: invented %s" % (path, a, V.short(got["f"][a]))
    return None


CUT = [None]  # element name that is cut off at the end of the torn text, if any


def cut_name(g):
    """Is g an empty element with the shortened name (<StyleMap cut to <Style)?"""
    if isinstance(g, list) and len(g) == 1:
        g = g[0]
    return isinstance(g, dict) and g.get("c") == CUT[0] and not g.get("f")


def exact(f, v, g, p):
    if f.kind == "float":
        return None if g is not None and float(g) == float(v) else "%s: expected %r, got %r" % (p, v, g)
    if f.kind == "date":
        v = V.zoned(v)
    return None if g == v else "%s: expected %s, got %s" % (p, V.short(v), V.short(g))


def exact_coords(v, g, p):
    e = [[float(x) for x in q] for q in v]
    return None if g == e else "%s: expected %s, got %s" % (p, V.short(e), V.short(g))


def floats(text):
    out = set()
    for k in range(len(text) + 1):
        try:
            out.add(float(text[:k]))
        except ValueError:
            pass
    return out


def part_value(f, v, g):
    t = V.text_of(f, v, "Z")
    if f.kind == "float":
        return float(g) in floats(t)
    if f.kind == "int":
        return float(g) in floats(t)
    if f.kind == "bool":
        return g == v
    if f.kind == "date":
        return str(g[1]).zfill(4) == t[:4]
    if f.kind.startswith("enum:"):
        return v.lower().startswith(str(g).lower())
    if not isinstance(g, str):
        return False
    # a character torn in the middle may read as the replacement character
    return any(t[:k].strip() in (g, g.rstrip("\ufffd").strip()) for k in range(len(t) + 1))


def part_coords(v, g, p):
    for i, q in enumerate(g):
        if i >= len(v):
            return "%s: more points than stored" % p
        e = [float(x) for x in v[i]]
        if q == e:
            continue
        ok = i == len(g) - 1 and len(q) <= len(e) and q[:-1] == e[:len(q) - 1] and q[-1] in floats(repr(e[len(q) - 1]))
        if not ok:
            return "%s: point %d is %r, stored was %r" % (p, i, q, e)
    return None


def part_track(v, ks, g, c, p):
    n = len(v)
    whole = all(k.e <= c for k in ks)
    zero = [0.0, 0.0, 0.0]
    if whole and len(g) != n:
        return "%s: %d of %d samples" % (p, len(g), n)
    whens, coords, angles = ks[:n], ks[n:2 * n], ks[2 * n:]
    full = sum(1 for a, b in zip(whens, coords) if a.e <= c and b.e <= c)
    if len(g) < full:
        return "%s: %d samples, %d were complete before the cut" % (p, len(g), full)
    for i, it in enumerate(g):
        if i >= n or coords[i].se > c:
            return "%s: sample %d was not stored before the cut" % (p, i)
        w, q, a = it
        e = [float(x) for x in v[i][1]]
        ea = [float(x) for x in v[i][2]] if v[i][2] is not None else zero
        if w != V.zoned(v[i][0]):
            return "%s: sample %d has time %r, stored was %r" % (p, i, w, v[i][0])
        if q != e:
            open_ = coords[i].e > c
            if not (open_ and len(q) <= len(e) and q[:-1] == e[:len(q) - 1] and q[-1] in floats(repr(e[len(q) - 1]))):
                return "%s: sample %d is at %r, stored was %r" % (p, i, q, e)
        if a != ea:
            k = angles[i] if angles else None
            if k is not None and k.e <= c:
                return "%s: sample %d has angles %r, stored was %r" % (p, i, a, ea)
            if a != zero and not (k is not None and k.se <= c and all(x in floats(repr(y)) or x == 0.0 for x, y in zip(a, ea))):
                return "%s: sample %d has angles %r, stored was %r" % (p, i, a, ea)
    return None


def child(v, k, g, c, p):
    if k.e <= c:
        if g is None:
            return "%s: missing, was complete before the cut" % p
        d = V.same(v, g)
        return "%s: %s" % (p, d) if d else None
    if k.s >= c:
        return None if g is None else "%s: was not stored before the cut" % p
    if g is None:
        if k.se <= c and v["c"] in ALWAYS:
            return "%s: missing, its beginning was stored before the cut" % p
        return None
    return check(v, k, g, c, p)


def children(v, ks, g, c, p, torn):
    by = {}
    for x, k in zip(v, ks):
        by.setdefault(x["c"], []).append((x, k))
    gb = {}
    if torn and not any(k.s < c < k.se and x["c"] == CUT[0] for x, k in zip(v, ks)):
        # the last of its class may be the element whose name was cut short
        i = max((i for i, x in enumerate(g) if x["c"] == CUT[0]), default=None)
        if i is not None and cut_name(g[i]):
            n = sum(1 for x, k in by.get(CUT[0], []) if k.s < c)
            if sum(1 for x in g if x["c"] == CUT[0]) > n:
                g = g[:i] + g[i + 1:]
    for x in g:
        gb.setdefault(x["c"], []).append(x)
    for cls in gb:
        if cls not in by:
            return "%s: invented a %s" % (p, cls)
    for cls, items in by.items():
        gl = gb.get(cls, [])
        j = 0
        for x, k in items:
            gx = gl[j] if j < len(gl) else None
            if k.s >= c:
                break
            bad = child(x, k, gx, c, "%s[%d]" % (p, j))
            if bad:
                return bad
            if gx is not None:
                j += 1
        if j < len(gl):
            return "%s: %d %s elements, only %d were stored before the cut" % (p, len(gl), cls, j)
    return None


# ---------------------------------------------------------------- run
def run(case, d, res):
    from fastkml import KML
    spec = case["spec"]
    tree = V.tree(spec, z="Z")
    text = V.xml_text(tree, case["style"], case["pretty"], case["decl"])
    body = text.index("?>") + 2 if case["decl"] else 0
    t = annotate(tree, text, body)
    pts = sorted(set(edges(t, [])))
    data = text.encode("utf-8")
    res.trivial = True
    res.note(rt.h(text))
    if case["kmz"]:
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
            z.writestr("doc.kml", data)
        archive = b.getvalue()
    for k, cut in enumerate(case["cuts"]):
        rt.set_backend(cut["backend"])
        res.steps += 1
        what = "cut %d %s" % (k, cut)
        if case["kmz"]:
            n = int(cut["at"] * (len(archive) + 1)) if cut["how"] == "uniform" else max(0, len(archive) + cut["shift"] - 2)
            res.faults["torn kmz"] += n < len(archive)
            p = os.path.join(d, "doc.kmz")
            with open(p, "wb") as f:
                f.write(archive[:n])
            try:
                with zipfile.ZipFile(p) as z, z.open("doc.kml") as f:
                    got = KML.parse(f, strict=cut["strict"], validate=False)
            except Exception:  # noqa: BLE001
                res.probes["archive refused"] += 1
                continue
            res.probes["archive accepted"] += 1
            bad = V.same(spec, V.summarize(got))
            if bad:
                res.fail("torn archive", "%s: archive of %d bytes cut at %d: %s" % (what, len(archive), n, bad))
                return
            continue
        if cut["how"] == "uniform":
            n = int(cut["at"] * (len(data) + 1))
        else:
            n = len(text[:pts[int(cut["at"] * len(pts))]].encode("utf-8")) + cut["shift"]
        n = min(max(n, 0), len(data))
        torn = data[:n]
        chars = len(torn.decode("utf-8", "ignore"))
        res.faults["torn kml"] += n < len(data)
        src = io.BytesIO(torn)
        if cut["src"] == "path":
            src = os.path.join(d, "doc.kml")
            with open(src, "wb") as f:
                f.write(torn)
        try:
            got = KML.parse(src, strict=cut["strict"], validate=cut["validate"])
        except Exception as e:  # noqa: BLE001
            res.probes["refused"] += 1
            res.note(k, n, type(e).__name__)
            if chars >= t.e and cut["validate"] is False:
                res.fail("refused complete", "%s: the whole document was stored, but reading raised %r" % (what, e))
            continue
        res.probes["accepted"] += 1
        res.trivial = False
        res.note(k, n, "accepted")
        s = V.summarize(got)
        m = re.search(r"<(?:\w+:)?(\w+)$", text[:chars])
        CUT[0] = m.group(1) if m else None
        bad = V.same(spec, s) if chars >= t.e else check(spec, t, s, chars)
        if bad:
            res.fail("not a leading part", "%s: cut at byte %d of %d (...%r): %s" % (what, n, len(data), torn[-40:], bad))
            return


def size(case):
    return len(case["cuts"])


def shrink(case):
    cs = case["cuts"]
    for i in range(len(cs)):
        if len(cs) > 1:
            yield {**case, "cuts": [cs[i]]}
    for s in V.shrinks(case["spec"]):
        yield {**case, "spec": s}
    c = cs[0]
    for k, v in (("pretty", False), ("decl", None), ("style", "default")):
        if case[k] != v:
            yield {**case, k: v}
    if len(cs) == 1:
        for a in (0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9):
            if c["at"] != a:
                yield {**case, "cuts": [{**c, "at": a}]}
