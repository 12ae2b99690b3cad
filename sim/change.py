"""Changes to a document, applied to the library's objects and to their model (a spec) alike."""
import copy
import random

from sim import ops as O
from sim import vocab as V

KINDS = ("scalar", "scalar", "append", "append", "pop", "none", "leaf", "leaf", "leaf", "rename", "insert")
# Their elements appear in the XML whatever else they lose.
LASTING = ("KML", "Document", "Folder", "Placemark", "GroundOverlay", "ScreenOverlay", "PhotoOverlay")


def change(st, doc, spec):
    """Change the document and its model; returns a description."""
    r = random.Random(st["seed"])
    ps = list(O.pairs(doc, spec))
    if st["kind"] in ("none", "pop"):
        ps = [(o, s) for o, s in ps if s["c"] in LASTING]
    o, s = ps[int(st["at"] * len(ps))]
    fields = V.CLASSES[s["c"]][4]
    if st["kind"] == "scalar":
        fs = [f for f in fields if f.how in "sa" and f.kind in ("text", "atext", "float", "bool", "int") and not f.req]
        if not fs:
            return None
        f = r.choice(fs)
        v = V.Gen(r).value(f.kind, f.gen)
        if isinstance(v, str):
            v = " ".join(v.split()) or "x"
        setattr(o, f.attr, v)
        s["f"][f.attr] = v
        return "%s.%s = %r" % (s["c"], f.attr, v)
    if st["kind"] == "none":
        fs = [f for f in fields if f.attr in s["f"] and (f.how == "c" or (f.how == "s" and not f.req))]
        fs = [f for f in fs if f.attr not in ("outer_boundary", "lat_lon_alt_box", "lat_lon_box")]
        if not fs:
            return None
        f = r.choice(fs)
        setattr(o, f.attr, None)
        del s["f"][f.attr]
        return "%s.%s = None" % (s["c"], f.attr)
    if st["kind"] == "leaf":
        return leaf(r, ps)
    if st["kind"] == "rename":
        ps = [(o, s) for o, s in ps if s["f"].get("id") and s["c"] != "Schema"]
        if not ps:
            return None
        o, s = ps[int(st["at"] * len(ps))]
        o.id = s["f"]["id"] = "renamed%d" % (st["seed"] % 1000)
        return "%s.id = %r" % (s["c"], o.id)
    fs = [f for f in fields if f.how == "l" and s["f"].get(f.attr)]
    if st["kind"] in ("append", "insert"):
        fs = [f for f in fs if s["f"][f.attr][0]["c"] != "InnerBoundaryIs"]
    if not fs:
        return None
    f = r.choice(fs)
    if st["kind"] == "pop":
        getattr(o, f.attr).pop()
        s["f"][f.attr] = s["f"][f.attr][:-1]
        if not s["f"][f.attr]:
            del s["f"][f.attr]
        return "%s.%s.pop()" % (s["c"], f.attr)
    new = copy.deepcopy(r.choice(s["f"][f.attr]))
    if st["kind"] == "insert":
        getattr(o, f.attr).insert(0, V.build(new))
        s["f"][f.attr] = [new] + s["f"][f.attr]
        return "%s.%s.insert(0, %s)" % (s["c"], f.attr, new["c"])
    x = V.build(new)
    if f.attr == "features" and hasattr(o, "append"):
        o.append(x)
    else:
        getattr(o, f.attr).append(x)
    s["f"][f.attr] = s["f"][f.attr] + [new]
    return "%s.%s.append(%s)" % (s["c"], f.attr, new["c"])


def leaf(r, ps):
    """Change a value where it is kept: a date, a list of coordinates or samples, a text, a choice, a colour."""
    sites = [(o, s, V.FIELDS[s["c"]][a]) for o, s in ps for a in s["f"]
             if V.FIELDS[s["c"]][a].how in "satxk" and V.FIELDS[s["c"]][a].kind != "id"]
    if not sites:
        return None
    kinds = sorted({f.kind for _, _, f in sites})
    kind = r.choice(kinds)
    o, s, f = r.choice([x for x in sites if x[2].kind == kind])
    g = V.Gen(r)
    what = "%s.%s" % (s["c"], f.attr)
    if kind == "coords":
        c = o.kml_coordinates
        new = [list(p) for p in s["f"][f.attr]]
        i = len(new) // 2
        new[i] = V.g_coord(r, len(new[i]))
        if isinstance(c.coords, list):
            c.coords[i] = tuple(new[i])
        else:
            c.coords = [tuple(p) for p in new]
        s["f"][f.attr] = new
        s.pop("g", None)
        return what + ": a point"
    if kind == "track":
        items = o.track_items
        if len(items) > 1 and r.random() < 0.3 and isinstance(items, list):
            items.pop()
            s["f"][f.attr] = s["f"][f.attr][:-1]
            return what + ".pop()"
        i = r.randrange(len(items))
        w = V.g_date(r)
        put(items[i].when, w)
        s["f"][f.attr] = [[w, *x[1:]] if j == i else x for j, x in enumerate(s["f"][f.attr])]
        return what + ": a moment"
    v = g.fresh(kind, f.gen, s["c"])
    if isinstance(v, str):
        v = " ".join(v.split()) or "x"
    if kind == "date" and r.random() < 0.7:
        put(getattr(o, f.attr), v)
        how = " (in place)"
    else:
        setattr(o, f.attr, V.value_obj(f, v))
        how = ""
    s["f"][f.attr] = v
    return "%s = %r%s" % (what, v, how)


def put(k, d):
    x = V.date_obj(d)
    k.dt, k.resolution = x.dt, x.resolution
