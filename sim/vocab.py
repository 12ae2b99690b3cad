"""Reference vocabulary of KML documents, independent of the library's own tables.

A document is a JSON-able *spec*: {"c": class name, "f": {attribute: value}}.
From a spec this module can
  * build the library's objects           (build)
  * render an XML tree / text of its own  (tree, xml_text)
  * say what the library's output must be (tree with precision and verbosity)
and it can read a library object back into a spec through public attributes
(summarize). Specs are compared with `same`; lists of children are compared per
class, because reading groups children by class.
"""
import copy
import datetime as _dt
import importlib
import re
import xml.etree.ElementTree as ET

KML = "http://www.opengis.net/kml/2.2"
GX = "http://www.google.com/kml/ext/2.2"
ATOM = "http://www.w3.org/2005/Atom"
OLDKML = "http://earth.google.com/kml/2.2"

ENUMS = {
    "AltitudeMode": ["clampToGround", "relativeToGround", "absolute",
                     "clampToSeaFloor", "relativeToSeaFloor"],
    "DataType": ["string", "int", "uint", "short", "ushort", "float", "double", "bool"],
    "RefreshMode": ["onChange", "onInterval", "onExpire"],
    "ViewRefreshMode": ["never", "onStop", "onRequest", "onRegion"],
    "ColorMode": ["normal", "random"],
    "DisplayMode": ["default", "hide"],
    "Shape": ["rectangle", "cylinder", "sphere"],
    "GridOrigin": ["lowerLeft", "upperLeft"],
    "Units": ["fraction", "pixels", "insetPixels"],
    "PairKey": ["normal", "highlight"],
}


class F:
    """One field: attribute name, where it is in the XML, kind of value."""

    def __init__(self, attr, node, how, kind, default=None, req=False, gen=None, ns=None):
        self.attr, self.node, self.how, self.kind = attr, node, how, kind
        self.default, self.req, self.gen, self.ns = default, req, gen, ns


def S(attr, node, kind, default=None, **kw):
    return F(attr, node, "s", kind, default, **kw)


def A(attr, node, kind, default=None, **kw):
    return F(attr, node, "a", kind, default, **kw)


def C(attr, classes, **kw):
    return F(attr, None, "c", classes.split(), **kw)


def L(attr, classes, **kw):
    return F(attr, None, "l", classes.split(), **kw)


BASE = [A("id", "id", "id"), A("target_id", "targetId", "ncname")]
ALT = S("altitude_mode", "altitudeMode", "enum:AltitudeMode", "clampToGround")
FEATURE = BASE + [
    S("name", "name", "text"), S("visibility", "visibility", "bool", True),
    S("isopen", "open", "bool", False), C("atom_author", "Author"), C("atom_link", "AtomLink"),
    S("address", "address", "text"), S("phone_number", "phoneNumber", "text"),
    C("snippet", "Snippet"), S("description", "description", "text"),
    C("view", "Camera LookAt"), C("times", "TimeSpan TimeStamp"), C("style_url", "StyleUrl"),
    L("styles", "Style StyleMap"), C("region", "Region"), C("extended_data", "ExtendedData"),
]
COLORSTYLE = BASE + [S("color", "color", "color", "ffffffff"),
                     S("color_mode", "colorMode", "enum:ColorMode", "normal")]
OVERLAY = FEATURE + [S("color", "color", "color", "ffffffff"),
                     S("draw_order", "drawOrder", "int", 0, gen="int32"), C("icon", "Icon")]
VIEW = BASE + [S("longitude", "longitude", "float", 0.0, gen="a180"),
               S("latitude", "latitude", "float", 0.0, gen="a90"),
               S("altitude", "altitude", "float", 0.0),
               S("heading", "heading", "float", 0.0, gen="a360"),
               S("tilt", "tilt", "float", 0.0, gen="p180")]
LINK = BASE + [
    S("href", "href", "uri", req=True),
    S("refresh_mode", "refreshMode", "enum:RefreshMode", "onChange"),
    S("refresh_interval", "refreshInterval", "float", 4.0, gen="pos"),
    S("view_refresh_mode", "viewRefreshMode", "enum:ViewRefreshMode", "never"),
    S("view_refresh_time", "viewRefreshTime", "float", 4.0, gen="pos"),
    S("view_bound_scale", "viewBoundScale", "float", 1.0, gen="pos"),
    S("view_format", "viewFormat", "text", "BBOX=[bboxWest],[bboxSouth],[bboxEast],[bboxNorth]"),
    S("http_query", "httpQuery", "text"),
]
XY = [A("x", "x", "float", req=True), A("y", "y", "float", req=True),
      A("x_units", "xunits", "enum:Units", "fraction"),
      A("y_units", "yunits", "enum:Units", "fraction")]
BOX = [S("north", "north", "float", req=True, gen="a90"), S("south", "south", "float", req=True, gen="a90"),
       S("east", "east", "float", req=True, gen="a180"), S("west", "west", "float", req=True, gen="a180")]
EXT = [S("extrude", "extrude", "bool", False)]
TESS = EXT + [S("tessellate", "tessellate", "bool", False)]
FEATS = "Document Folder Placemark GroundOverlay PhotoOverlay ScreenOverlay NetworkLink"
GEOMS = "Point LineString LinearRing Polygon MultiGeometry Model MultiTrack Track"

# class -> (module, attribute in module, tag, namespace id, fields)
CLASSES = {
    "KML": ("kml", "KML", "kml", "kml", [L("features", FEATS + " NetworkLinkControl")]),
    "Document": ("containers", "Document", "Document", "kml",
                 FEATURE + [L("features", FEATS), L("schemata", "Schema")]),
    "Folder": ("containers", "Folder", "Folder", "kml", FEATURE + [L("features", FEATS)]),
    "Placemark": ("features", "Placemark", "Placemark", "kml", FEATURE + [C("kml_geometry", GEOMS)]),
    "NetworkLink": ("features", "NetworkLink", "NetworkLink", "kml",
                    FEATURE + [S("refresh_visibility", "refreshVisibility", "bool", False),
                               S("fly_to_view", "flyToView", "bool", False),
                               C("link", "Link", req=True)]),
    "GroundOverlay": ("overlays", "GroundOverlay", "GroundOverlay", "kml",
                      OVERLAY + [S("altitude", "altitude", "float", 0.0), ALT,
                                 C("lat_lon_box", "LatLonBox")]),
    "PhotoOverlay": ("overlays", "PhotoOverlay", "PhotoOverlay", "kml",
                     OVERLAY + [S("rotation", "rotation", "float", 0.0, gen="a180"),
                                C("view_volume", "ViewVolume"), C("image_pyramid", "ImagePyramid"),
                                C("point", "Point"), S("shape", "shape", "enum:Shape", "rectangle")]),
    "ScreenOverlay": ("overlays", "ScreenOverlay", "ScreenOverlay", "kml",
                      OVERLAY + [C("overlay_xy", "OverlayXY"), C("screen_xy", "ScreenXY"),
                                 C("rotation_xy", "RotationXY"), C("size", "Size"),
                                 S("rotation", "rotation", "float", 0.0, gen="a180")]),
    "NetworkLinkControl": ("network_link_control", "NetworkLinkControl", "NetworkLinkControl", "kml", [
        S("min_refresh_period", "minRefreshPeriod", "float", 0, gen="pos"),
        S("max_session_length", "maxSessionLength", "float", -1),
        S("cookie", "cookie", "text"), S("message", "message", "text"),
        S("link_name", "linkName", "text"), S("link_description", "linkDescription", "text"),
        S("link_snippet", "linkSnippet", "text"), S("expires", "expires", "date"),
        C("view", "Camera LookAt")]),
    "Author": ("atom", "Author", "author", "atom",
               [S("name", "name", "text", req=True), S("uri", "uri", "uri"), S("email", "email", "email")]),
    "AtomLink": ("atom", "Link", "link", "atom",
                 [A("href", "href", "uri", req=True), A("rel", "rel", "word"), A("type", "type", "mime"),
                  A("hreflang", "hreflang", "lang"), A("title", "title", "atext"),
                  A("length", "length", "int", gen="posint")]),
    "Snippet": ("features", "Snippet", "Snippet", "kml",
                [F("text", None, "t", "text", req=True), A("max_lines", "maxLines", "int", 2, gen="int32")]),
    "StyleUrl": ("styles", "StyleUrl", "styleUrl", "kml", [F("url", None, "t", "uri", req=True)]),
    "Camera": ("views", "Camera", "Camera", "kml",
               VIEW + [S("roll", "roll", "float", 0.0, gen="a180"), ALT]),
    "LookAt": ("views", "LookAt", "LookAt", "kml", VIEW + [S("range", "range", "float"), ALT]),
    "Region": ("views", "Region", "Region", "kml",
               BASE + [C("lat_lon_alt_box", "LatLonAltBox", req=True), C("lod", "Lod")]),
    "LatLonAltBox": ("views", "LatLonAltBox", "LatLonAltBox", "kml",
                     BOX + [S("min_altitude", "minAltitude", "float", 0.0),
                            S("max_altitude", "maxAltitude", "float", 0.0), ALT]),
    "Lod": ("views", "Lod", "Lod", "kml",
            [S("min_lod_pixels", "minLodPixels", "int", 256, req=True, gen="int32"),
             S("max_lod_pixels", "maxLodPixels", "int", -1, gen="int32"),
             S("min_fade_extent", "minFadeExtent", "int", 0, gen="int32"),
             S("max_fade_extent", "maxFadeExtent", "int", 0, gen="int32")]),
    "TimeStamp": ("times", "TimeStamp", "TimeStamp", "kml", BASE + [S("timestamp", "when", "date", req=True)]),
    "TimeSpan": ("times", "TimeSpan", "TimeSpan", "kml",
                 BASE + [S("begin", "begin", "date", req=True), S("end", "end", "date")]),
    "ExtendedData": ("data", "ExtendedData", "ExtendedData", "kml", [L("elements", "Data SchemaData", req=True)]),
    "Data": ("data", "Data", "Data", "kml",
             BASE + [S("display_name", "displayName", "text"), S("value", "value", "text", req=True),
                     A("name", "name", "atext", req=True)]),
    "SchemaData": ("data", "SchemaData", "SchemaData", "kml",
                   BASE + [A("schema_url", "schemaUrl", "uri", req=True), L("data", "SimpleData", req=True)]),
    "SimpleData": ("data", "SimpleData", "SimpleData", "kml",
                   [F("value", None, "t", "text", req=True), A("name", "name", "atext", req=True)]),
    "Schema": ("data", "Schema", "Schema", "kml",
               [A("id", "id", "id", req=True), A("name", "name", "atext"), L("fields", "SimpleField")]),
    "SimpleField": ("data", "SimpleField", "SimpleField", "kml",
                    [S("display_name", "displayName", "text"), A("name", "name", "atext", req=True),
                     A("type_", "type", "enum:DataType", req=True)]),
    "Style": ("styles", "Style", "Style", "kml",
              BASE + [L("styles", "IconStyle LabelStyle LineStyle PolyStyle BalloonStyle", req=True, gen="oneeach")]),
    "StyleMap": ("styles", "StyleMap", "StyleMap", "kml", BASE + [L("pairs", "Pair", req=True)]),
    "Pair": ("styles", "Pair", "Pair", "kml",
             BASE + [S("key", "key", "enum:PairKey", req=True), C("style", "StyleUrl Style", req=True)]),
    "IconStyle": ("styles", "IconStyle", "IconStyle", "kml",
                  COLORSTYLE + [S("scale", "scale", "float", 1.0, gen="pos"),
                                S("heading", "heading", "float", 0.0, gen="a360"),
                                C("icon", "Icon", req=True), C("hot_spot", "HotSpot")]),
    "HotSpot": ("styles", "HotSpot", "hotSpot", "kml",
                [A("x", "x", "float", 0.5), A("y", "y", "float", 0.5),
                 A("xunits", "xunits", "enum:Units", "fraction"),
                 A("yunits", "yunits", "enum:Units", "fraction")]),
    "LabelStyle": ("styles", "LabelStyle", "LabelStyle", "kml",
                   COLORSTYLE + [S("scale", "scale", "float", 1.0, req=True, gen="pos")]),
    "LineStyle": ("styles", "LineStyle", "LineStyle", "kml",
                  COLORSTYLE + [S("width", "width", "float", 1.0, req=True, gen="pos")]),
    "PolyStyle": ("styles", "PolyStyle", "PolyStyle", "kml",
                  COLORSTYLE + [S("fill", "fill", "bool", True, req=True), S("outline", "outline", "bool", True)]),
    "BalloonStyle": ("styles", "BalloonStyle", "BalloonStyle", "kml",
                     BASE + [S("bg_color", "bgColor", "color", "ffffffff", req=True),
                             S("text_color", "textColor", "color", "ff000000"),
                             S("text", "text", "text"),
                             S("display_mode", "displayMode", "enum:DisplayMode", "default")]),
    "Link": ("links", "Link", "Link", "kml", LINK),
    "Icon": ("links", "Icon", "Icon", "kml", LINK),
    "LatLonBox": ("overlays", "LatLonBox", "LatLonBox", "kml",
                  BOX + [S("rotation", "rotation", "float", 0.0, gen="a180")]),
    "ViewVolume": ("overlays", "ViewVolume", "ViewVolume", "kml",
                   [S("left_fov", "leftFov", "float", 0.0, req=True, gen="a180"),
                    S("right_fov", "rightFov", "float", 0.0, req=True, gen="a180"),
                    S("bottom_fov", "bottomFov", "float", 0.0, req=True, gen="a90"),
                    S("top_fov", "topFov", "float", 0.0, req=True, gen="a90"),
                    S("near", "near", "float", 0.0, req=True)]),
    "ImagePyramid": ("overlays", "ImagePyramid", "ImagePyramid", "kml",
                     [S("tile_size", "tileSize", "int", 256, gen="posint"),
                      S("max_width", "maxWidth", "int", req=True, gen="posint"),
                      S("max_height", "maxHeight", "int", req=True, gen="posint"),
                      S("grid_origin", "gridOrigin", "enum:GridOrigin", "lowerLeft")]),
    "OverlayXY": ("overlays", "OverlayXY", "overlayXY", "kml", XY),
    "ScreenXY": ("overlays", "ScreenXY", "screenXY", "kml", XY),
    "RotationXY": ("overlays", "RotationXY", "rotationXY", "kml", XY),
    "Size": ("overlays", "Size", "size", "kml", XY),
    "Model": ("model", "Model", "Model", "kml",
              BASE + [ALT, C("location", "Location", req=True), C("orientation", "Orientation"),
                      C("scale", "Scale"), C("link", "Link", req=True), C("resource_map", "ResourceMap")]),
    "Location": ("model", "Location", "Location", "kml",
                 [S("longitude", "longitude", "float", req=True, gen="a180"),
                  S("latitude", "latitude", "float", req=True, gen="a90"),
                  S("altitude", "altitude", "float", 0.0)]),
    "Orientation": ("model", "Orientation", "Orientation", "kml",
                    [S("heading", "heading", "float", 0.0, req=True, gen="a360"),
                     S("tilt", "tilt", "float", 0.0, gen="p180"),
                     S("roll", "roll", "float", 0.0, gen="a180")]),
    "Scale": ("model", "Scale", "Scale", "kml",
              [S("x", "x", "float", 1.0, req=True), S("y", "y", "float", 1.0), S("z", "z", "float", 1.0)]),
    "ResourceMap": ("model", "ResourceMap", "ResourceMap", "kml", [L("aliases", "Alias", req=True)]),
    "Alias": ("model", "Alias", "Alias", "kml",
              [S("target_href", "targetHref", "uri", req=True), S("source_href", "sourceHref", "uri")]),
    "Point": ("geometry", "Point", "Point", "kml", BASE + EXT + [ALT, F("coords", None, "x", "coords", req=True)]),
    "LineString": ("geometry", "LineString", "LineString", "kml",
                   BASE + TESS + [ALT, F("coords", None, "x", "coords", req=True)]),
    "LinearRing": ("geometry", "LinearRing", "LinearRing", "kml",
                   BASE + TESS + [ALT, F("coords", None, "x", "coords", req=True)]),
    "OuterBoundaryIs": ("geometry", "OuterBoundaryIs", "outerBoundaryIs", "kml",
                        [C("kml_geometry", "LinearRing", req=True)]),
    "InnerBoundaryIs": ("geometry", "InnerBoundaryIs", "innerBoundaryIs", "kml",
                        [C("kml_geometry", "LinearRing", req=True)]),
    "Polygon": ("geometry", "Polygon", "Polygon", "kml",
                BASE + TESS + [ALT, C("outer_boundary", "OuterBoundaryIs", req=True),
                               L("inner_boundaries", "InnerBoundaryIs")]),
    "MultiGeometry": ("geometry", "MultiGeometry", "MultiGeometry", "kml",
                      BASE + [L("kml_geometries", "Point LineString Polygon LinearRing MultiGeometry", req=True)]),
    "Track": ("gx", "Track", "Track", "gx",
              BASE + [ALT, F("track_items", None, "k", "track", req=True), C("extended_data", "ExtendedData")]),
    "MultiTrack": ("gx", "MultiTrack", "MultiTrack", "gx",
                   BASE + [ALT, S("interpolate", "interpolate", "bool"), L("tracks", "Track", req=True)]),
}
FIELDS = {name: {f.attr: f for f in c[4]} for name, c in CLASSES.items()}
FEATURE_CLASSES = set(FEATS.split())
CONTAINERS = {"KML", "Document", "Folder"}


# ---------------------------------------------------------------- generation
WORDS = ["a", "B7", "north", "Zürich", "日本語", "naïve", "𝔘𝔫𝔦", "<tag>", "a&b", "]]>", "x'y\"z",
         "&amp;", "-", "0", "None", "0.0", "é", "ﬀ", "🌍", "{ns}", "%s", "\u200b", "kml", "1e5"]


def g_text(r, attr=False):
    n = r.choice((1, 1, 2, 3, 5))
    if r.random() < 0.04:
        n = r.choice((40, 120))
    sep = " " if attr else r.choice((" ", " ", "\n", "\t", "  "))
    t = sep.join(r.choice(WORDS) for _ in range(n))
    return t.strip() or "x"


def g_float(r, gen=None):
    lo, hi = {None: (-1e6, 1e6), "a90": (-90, 90), "a180": (-180, 180), "a360": (-360, 360),
              "p180": (0, 180), "pos": (0, 1e5)}[gen]
    k = r.random()
    if k < 0.25:
        return float(r.choice((0.0, lo, hi, 1.0, 0.5)) if gen != "a90" else r.choice((0.0, lo, hi, 1.0)))
    if k < 0.35:
        return r.choice((1e-07, 2.5e-10, 0.1 + 0.2, 1 / 3, 5.0))
    if k < 0.5:
        return float(r.randint(int(max(lo, -1000)), int(min(hi, 1000))))
    if gen is None and k < 0.55:
        return r.choice((1e15, -1e16, 123456789.125))
    return round(r.uniform(lo, hi), r.choice((1, 3, 6, 12)))


def g_int(r, gen=None):
    if gen == "posint":
        return r.choice((0, 1, 2, 100, 256, 2 ** 31 - 1, r.randint(0, 10 ** 6)))
    return r.choice((0, 1, -1, 2, 256, 2 ** 31 - 1, -2 ** 31, r.randint(-1000, 1000)))


def g_date(r):
    y = r.choice((2005, 1999, 1970, 1582, 33, 999, 2038, 2107, 9999, r.randint(1, 9999)))
    k = r.random()
    if k < 0.2:
        return ["y", y]
    if k < 0.4:
        return ["ym", y, r.randint(1, 12)]
    d = _dt.date(y, r.randint(1, 12), r.randint(1, 28))
    if k < 0.6:
        return ["d", d.year, d.month, d.day]
    us = r.choice((0, 0, 0, 500000, 123456, 1))
    off = r.choice((0, 0, 0, 330, -480, 765, 60, -30, None, None))  # None: no zone, which is read as UTC
    y = min(max(d.year, 2), 9998)
    return ["dt", y, d.month, d.day, r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), us, off]


def g_coord(r, dim):
    c = [g_float(r, "a180"), g_float(r, "a90")]
    if dim == 3:
        c.append(g_float(r))
    return c


def g_coords(r, cls):
    dim = r.choice((2, 3))
    if cls == "Point":
        return [g_coord(r, dim)]
    if cls == "LineString":
        pts = [g_coord(r, dim) for _ in range(r.choice((2, 2, 3, 5, 30 if r.random() < 0.1 else 4)))]
        return no_repeats(pts)
    pts = []
    while len(pts) < r.choice((3, 3, 4, 6)) or len({tuple(p) for p in pts}) < 3:
        pts.append(g_coord(r, dim))
    pts = no_repeats(pts)
    return pts + [list(pts[0])]


def no_repeats(pts):
    """The geometry library drops repeated points of some geometries: do not make any."""
    for i in range(1, len(pts)):
        if pts[i][:2] == pts[i - 1][:2] or pts[i][:2] == pts[0][:2]:
            pts[i][0] = i / 8.0 + 0.0625
    return pts


URIS = ["http://example.com/a", "#style1", "files/img.png", "http://h/x?q=1&r=2", "https://h/%C3%BC#f", "doc.kml#s"]


class Gen:
    """Seeded generator of schema-valid document specs."""

    def __init__(self, r, density=None, budget=None, valid=True):
        self.r = r
        self.valid = valid  # the schema allows one feature below <kml>
        self.n = 0
        self.density = density if density is not None else r.choice((0.03, 0.12, 0.3))
        self.focus = getattr(r, "focus", None)
        self.lead = LEAD.get(self.focus, ())
        self.budget = budget if budget is not None else r.choice((4, 10, 25, 60))

    def value(self, kind, gen=None, cls=None):
        """A value; in some executions often one that was used before (also by other documents)."""
        r = self.r
        reuse = getattr(r, "reuse", 0)
        if not reuse or kind == "id":
            return self.fresh(kind, gen, cls)
        old = r.pool.setdefault((kind, gen, cls if kind == "coords" else None), [])
        if old and r.random() < reuse:
            return copy.deepcopy(r.choice(old))
        v = self.fresh(kind, gen, cls)
        old.append(v)
        return copy.deepcopy(v)

    def fresh(self, kind, gen=None, cls=None):
        r = self.r
        if kind == "text":
            return g_text(r)
        if kind == "atext":
            return g_text(r, attr=True)
        if kind == "id":
            self.n += 1
            return r.choice(("id", "Pm_", "é", "a.b-", "_x")) + str(self.n)
        if kind == "ncname":
            return r.choice(("t1", "target-x", "_y"))
        if kind == "uri":
            return r.choice(URIS)
        if kind == "email":
            return r.choice(("a@b.example", "x.y@zz.example"))
        if kind == "word":
            return r.choice(("self", "related", "alternate"))
        if kind == "mime":
            return r.choice(("text/html", "application/xml"))
        if kind == "lang":
            return r.choice(("en", "de-CH"))
        if kind == "color":
            return "".join(r.choice("0123456789abcdef") for _ in range(8)) if r.random() < .8 else r.choice(("ffffffff", "ff000000"))
        if kind == "bool":
            return r.random() < 0.5
        if kind == "int":
            return g_int(r, gen)
        if kind == "float":
            return g_float(r, gen)
        if kind == "date":
            return g_date(r)
        if kind == "coords":
            return g_coords(r, cls)
        if kind == "track":
            n, dim, ang = r.choice((1, 2, 3, 5)), r.choice((2, 3)), r.choice(("no", "all", "some"))
            return [[g_date(r), g_coord(r, dim),
                     None if ang == "no" or (ang == "some" and r.random() < .5)
                     else [g_float(r, "a360"), g_float(r, "p180"), g_float(r, "a180")]] for _ in range(n)]
        if kind.startswith("enum:"):
            return r.choice(ENUMS[kind[5:]])
        raise AssertionError(kind)

    def spec(self, cls, depth=0):
        r = self.r
        self.budget -= 1
        out = {}
        for f in CLASSES[cls][4]:
            if f.how == "c":
                if f.req or (self.budget > 0 and depth < 8 and r.random() < self.p(cls, f)):
                    kinds = f.kind
                    if cls == "MultiGeometry" or depth > 6:
                        kinds = [k for k in kinds if k != "MultiGeometry"] or kinds
                    if self.focus and r.random() < 0.7:
                        kinds = [k for k in kinds if k in self.lead] or kinds
                    out[f.attr] = self.spec(r.choice(kinds), depth + 1)
                elif getattr(r, "void", 0) and set(f.kind) & set(VOID1) and r.random() < 0.3 * r.void:
                    out[f.attr] = {"c": r.choice([k for k in f.kind if k in VOID1]), "f": {}, "void": 1}
            elif f.how == "l":
                items = self.children(cls, f, depth)
                if items:
                    out[f.attr] = items
            elif f.req or r.random() < self.p(cls, f):
                out[f.attr] = self.value(f.kind, f.gen, cls)
        s = {"c": cls, "f": out}
        if self.valid:  # what the schema demands beyond the tables
            if cls == "IconStyle":
                out["icon"]["f"] = {k: v for k, v in out["icon"]["f"].items() if k in ("id", "target_id", "href")}
            if cls == "ExtendedData":
                out["elements"].sort(key=lambda e: e["c"])
        if cls in ("Point", "LineString", "LinearRing") and r.random() < 0.4:
            s["g"] = 1  # build through a pygeoif geometry
        return s

    def p(self, cls, f):
        if self.focus and (f.kind == self.focus or f.how in "cl" and any(k in self.lead for k in f.kind)):
            return 0.7
        if f.attr in ("name",):
            return max(0.4, self.density)
        if f.attr == "kml_geometry":
            return 0.8
        return self.density

    def roots(self, f, depth):
        r = self.r
        out = [self.spec("NetworkLinkControl", depth + 1)] if r.random() < 0.08 else []
        for _ in range(1 if self.valid else r.choice((1, 2, 3))):
            k = r.random()
            c = "Document" if k < 0.5 else "Folder" if k < 0.7 else r.choice(FEATS.split())
            out.append(self.spec(c, depth + 1))
        return out

    def children(self, cls, f, depth):
        r = self.r
        if f.attr == "features":
            if cls == "KML":
                return self.roots(f, depth)
            n = r.choice((0, 1, 2, 3, 6))
            if depth > 5 or self.budget <= 0:
                n = r.choice((0, 0, 1)) if depth < 7 else 0
            out = []
            for _ in range(n):
                k = r.random()
                if k < 0.45:
                    c = "Placemark"
                elif k < 0.7 and depth < 5:
                    c = r.choice(("Folder", "Document"))
                else:
                    c = r.choice([k for k in f.kind if k in self.lead] or f.kind)
                if c in CONTAINERS and depth >= 6:
                    c = "Placemark"
                out.append(self.spec(c, depth + 1))
            return self.more(f, out)
        if not f.req and not (self.budget > 0 and r.random() < self.p(cls, f)):
            return []
        if f.gen == "oneeach":
            ks = [k for k in f.kind if r.random() < 0.4] or [r.choice(f.kind)]
            return [self.spec(k, depth + 1) for k in ks]
        kinds = f.kind if depth < 6 else [k for k in f.kind if k != "MultiGeometry"]
        return self.more(f, [self.spec(r.choice(kinds), depth + 1) for _ in range(r.choice((1, 1, 2, 3)))])

    def more(self, f, out):
        """Sometimes an equal sibling, sometimes (only if asked for) children without content."""
        r = self.r
        if out and r.random() < 0.3 * getattr(r, "reuse", 0) and not any(s["c"] == "Schema" for x in out for _, s in walk(x)):
            out.insert(r.randrange(len(out) + 1), without_ids(copy.deepcopy(r.choice(out))))
        void = [k for k in f.kind if k in VOID]
        if void and r.random() < getattr(r, "void", 0):
            out.insert(r.randrange(len(out) + 1), {"c": r.choice(void), "f": {}, "void": 1})
        return out


def leads():
    """Per kind of value: the classes that have such a field, and those one step above that are no features."""
    out = {}
    for c, row in CLASSES.items():
        for f in row[4]:
            if f.how not in "cl":
                out.setdefault(f.kind, set()).add(c)
    for k, have in out.items():
        for c, row in CLASSES.items():
            if c not in FEATURE_CLASSES | CONTAINERS and any(f.how in "cl" and have & set(f.kind) for f in row[4]):
                have = have | {c}
        out[k] = have
    return out


LEAD = leads()
FOCI = sorted(LEAD)


def revalue(r, spec, p=0.8):
    """A document of the same structure with other values."""
    g = Gen(r, 0.1, 10)
    out = copy.deepcopy(spec)
    for _, s in walk(out):
        for attr in s["f"]:
            f = FIELDS[s["c"]][attr]
            if f.how not in "cl" and f.kind != "id" and r.random() < p:
                s["f"][attr] = g.value(f.kind, f.gen, s["c"])
    return out


# Objects of these classes have no XML form as long as they have no content.
VOID = ("SimpleData", "Point", "LineString", "LinearRing", "NetworkLink", "Alias", "Style", "StyleMap")

VOID1 = ("Point", "LineString", "LinearRing", "Link", "Icon", "Snippet", "ExtendedData", "TimeSpan", "LatLonBox", "Lod")


def without_ids(s):
    for _, x in walk(s):
        x["f"].pop("id", None)
    return s


def solid(spec):
    """The spec without children that have no XML form."""
    if not any(s.get("void") for _, s in walk(spec)):
        return spec
    out = {}
    for attr, v in spec["f"].items():
        f = FIELDS[spec["c"]][attr]
        if f.how == "c":
            if v.get("void"):
                continue
            v = solid(v)
        elif f.how == "l":
            v = [solid(x) for x in v if not x.get("void")]
        if v or f.how != "l":
            out[attr] = v
    return {**spec, "f": out}


def gen_kml(r, density=None, budget=None, valid=True):
    spec = Gen(r, density, budget, valid).spec("KML")
    if getattr(r, "wide", 0) and r.random() < r.wide:
        widen(r, spec)
    elif getattr(r, "deep", 0) and r.random() < r.deep:
        widen(r, spec, "deep")
    return spec


def widen(r, spec, kind=None):
    """One list of the document becomes long, or one container many levels deep."""
    n = r.choice((20, 70, 70, 130, 260, 520, 1030))
    kind = kind or r.choice(("features", "coords", "track", "styles", "deep"))
    cands = [s for _, s in walk(spec) if s["c"] in {"features": CONTAINERS - {"KML"}, "deep": CONTAINERS - {"KML"}, "styles": CONTAINERS - {"KML"}, "coords": ("LineString", "LinearRing"),
                                                    "track": ("Track",)}[kind]]
    if not cands:
        return
    s = r.choice(cands)
    f = s["f"]
    if kind == "coords" and f.get("coords"):
        old = f["coords"]
        new = no_repeats(old[:-1] + [g_coord(r, len(old[0])) for _ in range(n)])
        f["coords"] = new + [list(old[-1])] if new[-1] != old[-1] else new
    elif kind == "deep":
        for k in range(r.choice((8, 14, 25, 40))):
            inner = {"c": "Folder", "f": {"id": "d%d" % k, **({"features": f["features"]} if f.get("features") else {})}}
            if k % 7 == 3:
                inner["f"]["name"] = "d%d" % k
            f["features"] = [inner]
    elif kind == "track" and f.get("track_items"):
        f["track_items"] = f["track_items"] + [copy.deepcopy(r.choice(f["track_items"])) for _ in range(n)]
    elif kind in ("features", "styles") and kind in FIELDS[s["c"]]:
        c = "Placemark" if kind == "features" else "Style"
        f[kind] = f.get(kind, []) + [{"c": c, "f": {"id": "w%d" % k, **(
            {"styles": [{"c": "LabelStyle", "f": {"scale": 0.5}}]} if kind == "styles" else {} if k % 3 else {"name": "w%d" % k})}}
                                     for k in range(n)]


# ---------------------------------------------------------------- values <-> text
def date_text(d, z="+00:00"):
    if d[0] == "y":
        return "%04d" % d[1]
    if d[0] == "ym":
        return "%04d-%02d" % (d[1], d[2])
    if d[0] == "d":
        return "%04d-%02d-%02d" % tuple(d[1:4])
    s = "%04d-%02d-%02dT%02d:%02d:%02d" % tuple(d[1:7])
    if d[7]:
        s += ".%06d" % d[7]
    o = d[8]
    return s if o is None else s + (z if o == 0 else "%s%02d:%02d" % ("-" if o < 0 else "+", abs(o) // 60, abs(o) % 60))


def date_obj(d):
    from fastkml.enums import DateTimeResolution as R
    from fastkml.times import KmlDateTime
    if d[0] == "y":
        return KmlDateTime(_dt.date(d[1], 1, 1), R.year)
    if d[0] == "ym":
        return KmlDateTime(_dt.date(d[1], d[2], 1), R.year_month)
    if d[0] == "d":
        return KmlDateTime(_dt.date(*d[1:4]), R.date)
    tz = None if d[8] is None else _dt.timezone(_dt.timedelta(minutes=d[8])) if d[8] else _dt.timezone.utc
    return KmlDateTime(_dt.datetime(*d[1:8], tzinfo=tz), R.datetime)


def date_back(k):
    if k is None:
        return None
    res = k.resolution.value
    d = k.dt
    if res == "gYear":
        return ["y", d.year]
    if res == "gYearMonth":
        return ["ym", d.year, d.month]
    if not isinstance(d, _dt.datetime):
        return ["d", d.year, d.month, d.day]
    off = d.utcoffset()
    off = 0 if off is None else int(off.total_seconds() // 60)
    return ["dt", d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, off]


def num(x):
    return x


# ---------------------------------------------------------------- build
_cls_cache = {}


def lib(cls):
    if cls not in _cls_cache:
        m, a = CLASSES[cls][:2]
        _cls_cache[cls] = getattr(importlib.import_module("fastkml." + m), a)
    return _cls_cache[cls]


_TYPES = {}


def type_table():
    if not _TYPES:
        for c in CLASSES:
            _TYPES[lib(c)] = c
    return _TYPES


def build(spec, **top):
    """Build the library object for a spec. `top` are extra constructor arguments."""
    cls = spec["c"]
    fields = FIELDS[cls]
    kw = dict(top)
    for attr, v in spec["f"].items():
        f = fields[attr]
        if f.how == "c":
            kw[attr] = build(v)
        elif f.how == "l":
            kw[attr] = [build(x) for x in v]
        elif f.how == "x":
            coords = [tuple(c) for c in v]
            if spec.get("g"):
                import pygeoif.geometry as geo
                kw["geometry"] = geo.Point(*coords[0]) if cls == "Point" else getattr(geo, cls)(coords)
            else:
                from fastkml.geometry import Coordinates
                kw["kml_coordinates"] = Coordinates(coords=coords)
        elif f.how == "k":
            import pygeoif.geometry as geo
            from fastkml.gx import Angle
            from fastkml.gx import TrackItem
            kw[attr] = [TrackItem(when=date_obj(w), coord=geo.Point(*c), angle=Angle(*a) if a is not None else None)
                        for w, c, a in v]
        else:
            kw[attr] = value_obj(f, v)
    return lib(cls)(**kw)


def value_obj(f, v):
    if f.kind.startswith("enum:"):
        import fastkml.enums
        return getattr(fastkml.enums, f.kind[5:])(v)
    if f.kind == "date":
        return date_obj(v)
    return v


# ---------------------------------------------------------------- summarize
def summarize(obj):
    """Read a library object back into a spec through its public attributes."""
    cls = type_table().get(type(obj))
    if cls is None:
        return {"c": "?" + type(obj).__name__, "f": {}}
    out = {}
    for f in CLASSES[cls][4]:
        if f.how == "x":
            kc = obj.kml_coordinates
            c = list(kc.coords) if kc is not None and kc.coords else []
            if c:
                out["coords"] = [[float(x) for x in p] for p in c]
            continue
        if f.how == "k":
            items = []
            for it in obj.track_items:
                a = it.angle
                items.append([date_back(it.when), [float(x) for x in it.coord.coords[0]],
                              [0.0, 0.0, 0.0] if a is None else [float(a.heading), float(a.tilt), float(a.roll)]])
            if items:
                out[f.attr] = items
            continue
        v = getattr(obj, f.attr)
        if v is None or v == "":
            continue
        if f.how == "c":
            out[f.attr] = summarize(v)
        elif f.how == "l":
            v = [summarize(x) for x in v]
            if v:
                out[f.attr] = v
        elif f.kind.startswith("enum:"):
            out[f.attr] = v.value
        elif f.kind == "date":
            out[f.attr] = date_back(v)
        elif f.kind in ("float",):
            out[f.attr] = float(v)
        elif f.kind == "bool":
            out[f.attr] = v if isinstance(v, bool) else ["notbool", v]
        else:
            out[f.attr] = v
    return {"c": cls, "f": out}


def canon(spec):
    """Canonical form: children sorted by class (stable), track angles filled in."""
    cls = spec["c"]
    out = {}
    for attr, v in spec["f"].items():
        f = FIELDS[cls][attr] if cls in FIELDS else None
        if f is None:
            out[attr] = v
        elif f.how == "c":
            out[attr] = canon(v)
        elif f.how == "l":
            if v:
                out[attr] = sorted((canon(x) for x in v), key=lambda s: s["c"])
        elif f.how == "x":
            out[attr] = [[float(x) for x in p] for p in v]
        elif f.how == "k":
            out[attr] = [[zoned(w), [float(x) for x in c], [float(x) for x in a] if a is not None else [0.0] * 3]
                         for w, c, a in v]
        elif f.kind == "float":
            out[attr] = float(v)
        elif f.kind == "date":
            out[attr] = zoned(v)
        else:
            out[attr] = v
    return {"c": cls, "f": out}


def zoned(d):
    return [*d[:8], d[8] or 0] if d is not None and d[0] == "dt" else d


def diff(exp, got, path=""):
    """First difference between two canonical specs (None when equal)."""
    if exp["c"] != got["c"]:
        return "%s: expected <%s>, got <%s>" % (path, exp["c"], got["c"])
    path = path + "/" + exp["c"]
    for a in sorted(set(exp["f"]) | set(got["f"])):
        if a not in got["f"]:
            return "%s.%s: missing, expected %r" % (path, a, short(exp["f"][a]))
        if a not in exp["f"]:
            return "%s.%s: unexpected %r" % (path, a, short(got["f"][a]))
        e, g = exp["f"][a], got["f"][a]
        f = FIELDS.get(exp["c"], {}).get(a)
        how = f.how if f else ""
        if how == "c":
            d = diff(e, g, path + "." + a)
            if d:
                return d
        elif how == "l":
            if len(e) != len(g):
                return "%s.%s: expected %d children %s, got %d %s" % (
                    path, a, len(e), [x["c"] for x in e], len(g), [x["c"] for x in g])
            for i, (x, y) in enumerate(zip(e, g)):
                d = diff(x, y, "%s.%s[%d]" % (path, a, i))
                if d:
                    return d
        elif e != g:
            return "%s.%s: expected %r, got %r" % (path, a, short(e), short(g))
    return None


def short(v):
    s = repr(v)
    return v if len(s) < 160 else s[:160] + "..."


def same(exp, got):
    return diff(canon(exp), canon(got))


def regroup(spec, got):
    """The spec with its child lists in the order of classes in which `got` has them, and all times with a zone."""
    out = {}
    for attr, v in spec["f"].items():
        f = FIELDS[spec["c"]][attr]
        g = got["f"].get(attr)
        if f.how == "c" and isinstance(g, dict):
            out[attr] = regroup(v, g)
        elif f.how == "l" and isinstance(g, list):
            order = []
            for x in g:
                if x["c"] not in order:
                    order.append(x["c"])
            vs = sorted(v, key=lambda s: order.index(s["c"]) if s["c"] in order else 99)
            out[attr] = [regroup(a, b) for a, b in zip(vs, g)] + vs[len(g):]
        elif f.how == "k":
            out[attr] = [[zoned(w), c, [0.0] * 3 if a is None else a] for w, c, a in v]
        elif f.kind == "date":
            out[attr] = zoned(v)
        else:
            out[attr] = v
    return {**spec, "f": out}


# ---------------------------------------------------------------- reference XML
class N:
    """Expected XML node. `num` marks numeric text."""
    __slots__ = ("tag", "attrs", "text", "kids", "num")

    def __init__(self, tag, text=None, num=False):
        self.tag, self.attrs, self.text, self.kids, self.num = tag, [], text, [], num


def _nsuri(nsid, kns):
    return {"kml": kns, "gx": GX, "atom": ATOM}[nsid]


def fmt(x, precision):
    return repr(float(x)) if precision is None else "%.*f" % (precision, x)


def text_of(f, v, z="+00:00"):
    k = f.kind
    if k == "bool":
        return "1" if v else "0"
    if k == "float":
        return repr(v)
    if k == "int":
        return str(v)
    if k == "date":
        return date_text(v, z)
    return v


def tree(spec, precision=None, verbosity="normal", kns=KML, z="+00:00"):
    """The XML the library must produce for a spec."""
    spec = solid(spec)
    cls = spec["c"]
    _, _, tag, nsid, fields = CLASSES[cls]
    ns = _nsuri(nsid, kns)
    n = N("{%s}%s" % (ns, tag))
    for f in fields:
        v = spec["f"].get(f.attr)
        if f.how == "c":
            if v is not None:
                n.kids.append(tree(v, precision, verbosity, kns, z))
            continue
        if f.how == "l":
            for x in v or ():
                n.kids.append(tree(x, precision, verbosity, kns, z))
            continue
        if f.how == "x":
            if v:
                n.kids.append(N("{%s}coordinates" % kns,
                                " ".join(",".join(fmt(x, precision) for x in p) for p in v), True))
            continue
        if f.how == "k":
            for it in v or ():
                n.kids.append(N("{%s}when" % kns, date_text(it[0], z)))
            for it in v or ():
                n.kids.append(N("{%s}coord" % GX, " ".join(fmt(x, precision) for x in it[1]), True))
            if any(it[2] is not None for it in v or ()):
                for it in v:
                    n.kids.append(N("{%s}angles" % GX, " ".join(fmt(x, precision) for x in it[2] or (0., 0., 0.)), True))
            continue
        if v is None and verbosity == "verbose":
            v = f.default
        if v is None or (verbosity == "terse" and v == f.default):
            continue
        t = text_of(f, v, z)
        isnum = f.kind in ("float", "int")
        if f.how == "a":
            n.attrs.append((f.node, t, isnum))
        elif f.how == "t":
            n.text = t
        else:
            fns = ns
            if f.kind == "enum:AltitudeMode":
                fns = GX if "SeaFloor" in v else kns
            n.kids.append(N("{%s}%s" % (fns, f.node), t, isnum))
    return n


def after_write(spec, precision=None, verbosity="normal"):
    """The spec a reader must get from the library's output."""
    spec = solid(spec)
    cls = spec["c"]
    out = {}
    for f in CLASSES[cls][4]:
        v = spec["f"].get(f.attr)
        if f.how == "c":
            if v is not None:
                out[f.attr] = after_write(v, precision, verbosity)
        elif f.how == "l":
            if v:
                out[f.attr] = [after_write(x, precision, verbosity) for x in v]
        elif f.how == "x":
            out[f.attr] = [[float(fmt(x, precision)) for x in p] for p in v]
        elif f.how == "k":
            out[f.attr] = [[w, [float(fmt(x, precision)) for x in c],
                            [float(fmt(x, precision)) for x in a or (0., 0., 0.)]] for w, c, a in v]
        else:
            if v is None and verbosity == "verbose":
                v = f.default
                if f.kind == "float" and v is not None:
                    v = float(v)
            if v is None or (verbosity == "terse" and v == f.default):
                continue
            out[f.attr] = v
    return {"c": cls, "f": out}


_num_split = re.compile(r"[,\s]+")


_unzoned = re.compile(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?")


def _numeq(a, b):
    try:
        return [float(x) for x in _num_split.split(a.strip())] == [float(x) for x in _num_split.split(b.strip())]
    except ValueError:
        return False


def diff_tree(n, el, path=""):
    """First difference between an expected node and an ElementTree element."""
    if el.tag != n.tag:
        return "%s: expected element %s, got %s" % (path, n.tag, el.tag)
    path = path + "/" + n.tag.split("}")[1]
    attrs = dict(el.attrib)
    for k, v, isnum in n.attrs:
        if k not in attrs:
            return "%s@%s: missing" % (path, k)
        g = attrs.pop(k)
        if g != v and not (isnum and _numeq(g, v)):
            return "%s@%s: expected %r, got %r" % (path, k, short(v), short(g))
    if attrs:
        return "%s: unexpected attributes %r" % (path, attrs)
    et, gt = (n.text or "").strip(), (el.text or "").strip()
    if et != gt and not (n.num and _numeq(et, gt)) and not (gt == et + "+00:00" and _unzoned.fullmatch(et)):
        return "%s: expected text %r, got %r" % (path, short(et), short(gt))
    kids = list(el)
    if len(kids) != len(n.kids):
        return "%s: expected children %s, got %s" % (
            path, [k.tag.split("}")[1] for k in n.kids], [str(k.tag).split("}")[-1] for k in kids])
    bytag = {}
    for k in kids:
        bytag.setdefault(k.tag, []).append(k)
        if k.tail and k.tail.strip():
            return "%s: stray text %r" % (path, k.tail)
    for k in n.kids:
        if not bytag.get(k.tag):
            return "%s: expected child %s" % (path, k.tag)
        d = diff_tree(k, bytag[k.tag].pop(0), path)
        if d:
            return d
    eo = [k.tag for k in n.kids if k.tag.split("}")[1] in FEATURE_CLASSES]
    go = [k.tag for k in kids if str(k.tag).split("}")[-1] in FEATURE_CLASSES]
    if eo != go:
        return "%s: features out of order: expected %s, got %s" % (path, eo, go)
    return None


def diff_xml(n, text):
    try:
        el = ET.fromstring(text)
    except (ET.ParseError, ValueError) as e:
        return "output is not well-formed XML: %s" % e
    return diff_tree(n, el)


# ---------------------------------------------------------------- our own XML writer
def esc(t):
    return t.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def esc_attr(t):
    return esc(t).replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;")


def xml_text(n, style="default", pretty=True, decl=None, root=True, indent=0, uri_prefix=None):
    """Serialise an expected tree. style: default (xmlns=), prefix (kml:) or padded (white space around values)."""
    if root:
        kns = n.tag[1:].split("}")[0]
        base = kns if kns not in (GX, ATOM) else KML
        uri_prefix = {base: "kml:" if style == "prefix" else "", GX: "gx:", ATOM: "atom:"}
        x = (' xmlns="%s"' % base if style != "prefix" else ' xmlns:kml="%s"' % base)
        x += ' xmlns:gx="%s" xmlns:atom="%s"' % (GX, ATOM)
    else:
        x = ""
    uri, tag = n.tag[1:].split("}")
    q = uri_prefix[uri] + tag
    a = "".join(' %s="%s"' % (k, esc_attr(v)) for k, v, _ in n.attrs)
    nl = "\n" + "  " * (indent + 1) if pretty else ""
    kids = "".join(nl + xml_text(k, style, pretty, None, False, indent + 1, uri_prefix) for k in n.kids)
    if kids and pretty:
        kids += "\n" + "  " * indent
    t = esc(n.text) if n.text else ""
    if t and style == "padded":
        t = ("\n  %s\t ", " %s ", "\n%s\n")[len(t) % 3] % t
    s = "<%s%s%s>%s%s</%s>" % (q, x, a, t, kids, q) if t or kids else "<%s%s%s/>" % (q, x, a)
    if root and decl:
        s = '<?xml version="1.0" encoding="%s"?>\n%s' % (decl, s)
    return s


def render(spec, style="default", pretty=True, decl=None, kns=KML, z="Z"):
    return xml_text(tree(spec, kns=kns, z=z), style, pretty, decl)


# ---------------------------------------------------------------- helpers on specs
def walk(spec, path=()):
    """All (path, spec) pairs; a path is a tuple of (attr, index or None)."""
    yield path, spec
    for attr, v in spec["f"].items():
        f = FIELDS[spec["c"]][attr]
        if f.how == "c":
            yield from walk(v, path + ((attr, None),))
        elif f.how == "l":
            for i, x in enumerate(v):
                yield from walk(x, path + ((attr, i),))


def shrinks(spec):
    """Smaller variants of a spec (used when minimising a failing case)."""
    for attr, v in list(spec["f"].items()):
        f = FIELDS[spec["c"]][attr]
        if f.how == "l":
            lo = 1 if f.req else 0
            if len(v) > lo:
                if len(v) > 2 and lo <= len(v) // 2:
                    for half in (v[:len(v) // 2], v[len(v) // 2:]):
                        if len(half) >= lo:
                            yield {**spec, "f": {**spec["f"], attr: half}}
                for i in range(len(v)):
                    w = v[:i] + v[i + 1:]
                    nf = {**spec["f"], attr: w}
                    if not w:
                        nf.pop(attr)
                    yield {**spec, "f": nf}
        elif not f.req:
            nf = dict(spec["f"])
            nf.pop(attr)
            yield {**spec, "f": nf}
        elif f.how == "k" and len(v) > 1:
            for i in range(len(v)):
                yield {**spec, "f": {**spec["f"], attr: v[:i] + v[i + 1:]}}
    for attr, v in list(spec["f"].items()):
        f = FIELDS[spec["c"]][attr]
        if f.how == "c":
            for x in shrinks(v):
                yield {**spec, "f": {**spec["f"], attr: x}}
        elif f.how == "l":
            for i, y in enumerate(v):
                for x in shrinks(y):
                    yield {**spec, "f": {**spec["f"], attr: v[:i] + [x] + v[i + 1:]}}
        elif f.kind == "text" and len(v) > 1:
            yield {**spec, "f": {**spec["f"], attr: v[0] if v[0].strip() else "x"}}
