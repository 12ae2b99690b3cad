"""Catalogue of library operations with their oracles.

Every operation is a JSON-able dict. prepare() makes its inputs, run() calls the
library, check() compares the outcome with the reference vocabulary; digest() is a
text by which two executions of the same operation are compared.
"""
import copy
import io
import os
import pathlib
import xml.etree.ElementTree as ET
import zipfile

from sim import runtime as rt
from sim import vocab as V

ERRORS = (Exception,)


class Ok:
    def __init__(self, value):
        self.value = value


class Err:
    def __init__(self, exc):
        self.exc = exc


def verb(name):
    from fastkml.enums import Verbosity
    return Verbosity[name]


def pairs(obj, spec):
    """(object, spec) for every element of a document, parents first, in order."""
    yield obj, spec
    for attr, v in spec["f"].items():
        f = V.FIELDS[spec["c"]][attr]
        if f.how == "c":
            yield from pairs(getattr(obj, attr), v)
        elif f.how == "l":
            for o, s in zip(getattr(obj, attr), v):
                yield from pairs(o, s)


def out_opts(r):
    return {"pp": r.random() < 0.5, "prec": r.choice((None, None, None, 0, 2, 6)),
            "verb": r.choice(("normal", "normal", "normal", "terse", "verbose"))}


def kw_opts(o):
    return {"prettyprint": o["pp"], "precision": o["prec"], "verbosity": verb(o["verb"])}


def subspecs(spec, exclude=("KML", "OuterBoundaryIs", "InnerBoundaryIs")):
    return [s for _, s in V.walk(spec) if s["c"] not in exclude]


def dense(r):
    return r.choice((0.03, 0.1, 0.3, 0.6))


# ---------------------------------------------------------------- damage to stored values
DAMAGED = ("int", "float", "bool", "date")


def damage_text(r, kind, text):
    """Turn the text of a value into one that cannot be read as its type (or, for choices and booleans, only leniently)."""
    junk = r.choice(("x", "?", "\ufffd", "#", "%"))
    k = r.random()
    if kind.startswith("enum:"):
        import fastkml.enums
        legal = {str(x.value).lower() for x in getattr(fastkml.enums, kind[5:])}
        if k < 0.2:
            return text.upper() if text.upper() != text else text.capitalize()
        while True:
            t = r.choice((text[:-1], text + junk, junk, text[:2] + junk + text[3:], "unknown", "1"))
            if t.lower() not in legal:
                return t
    if kind == "date":
        junk = "x" if junk == "?" else junk  # punctuation around a date is tolerated
        return r.choice((text[:3] + junk, junk + text, "2005-13-45", "yesterday", text + junk,
                         "2005-02-30", "0000-01-01", "12:00"))
    if kind == "bool":
        if k < 0.2:
            return r.choice(("TRUE", "True") if text == "1" else ("FALSE", "False"))
        return r.choice(("yes", junk, "tr" + junk, "1" + junk))
    if kind == "coords":
        toks = text.split()
        i = r.randrange(len(toks))
        if k < 0.5:
            p = toks[i].split(",")
            j = r.randrange(len(p))
            p[j] = r.choice((p[j] + junk, junk, p[j] + ".0.0", "--" + p[j].lstrip("-")))
            toks[i] = ",".join(p)
        else:
            toks[i] = junk + toks[i]
        return " ".join(toks)
    if kind == "track":
        toks = text.split()
        toks[r.randrange(len(toks))] = r.choice((junk, "1" + junk, "1.2.3"))
        return " ".join(toks)
    i = r.randrange(len(text) + 1)
    if kind == "int" and k < 0.2:
        return r.choice((text + ".5", text + "," + text, "0x10", text + "e2"))
    return r.choice((text[:i] + junk + text[i:], "--" + text, text + " 1", "1.2.3", "abc", junk, "1,5", text + "," + text))


def damage_sites(spec):
    """All places whose value has a type that can be damaged: (path, attr, kind, sub)."""
    out = []
    for path, s in V.walk(spec):
        for attr, v in s["f"].items():
            f = V.FIELDS[s["c"]][attr]
            if f.how in "cl":
                continue
            if f.how == "x":
                out.append([path, attr, "coords", 0])
            elif f.how == "k":
                for i in range(len(v)):
                    out.append([path, attr, "track", ["when", i]])
                    out.append([path, attr, "track", ["coord", i]])
                    if any(it[2] is not None for it in v):
                        out.append([path, attr, "track", ["angles", i]])
            elif f.kind in DAMAGED or f.kind.startswith("enum:"):
                out.append([path, attr, f.kind, 0])
    return out


def at(spec, path):
    for attr, i in path:
        spec = spec["f"][attr] if i is None else spec["f"][attr][i]
    return spec


def node_at(n, spec, path):
    """The XML node of the element at `path` (n is the tree of spec)."""
    for attr, i in path:
        # children appear in field order
        k = None
        pos = 0
        for f in V.CLASSES[spec["c"]][4]:
            v = spec["f"].get(f.attr)
            if v is None:
                continue
            if f.how == "c":
                if f.attr == attr:
                    k = pos
                pos += 1
            elif f.how == "l":
                if f.attr == attr:
                    k = pos + i
                pos += len(v)
            elif f.how == "x":
                pos += 1
            elif f.how == "k":
                pos += len(v) * (3 if any(it[2] is not None for it in v) else 2)
            elif f.how == "s":
                pos += 1
        n = n.kids[k]
        spec = spec["f"][attr] if i is None else spec["f"][attr][i]
    return n


def apply_damage(spec, hits, kns=V.KML):
    """(XML tree with the damage, spec a lenient reader must get)."""
    n = V.tree(spec, kns=kns, z="Z")
    exp = copy.deepcopy(spec)
    drops = {}
    for hit in hits:
        path, attr, kind, sub, text = hit
        path = [tuple(p) for p in path]
        s, m = at(spec, path), node_at(n, spec, path)
        f = V.FIELDS[s["c"]][attr]
        e = at(exp, path)
        if kind == "track":
            what, i = sub
            tag = {"when": "when", "coord": "coord", "angles": "angles"}[what]
            [k for k in m.kids if k.tag.endswith("}" + tag)][i].text = text
            if what == "angles":
                e["f"][attr][i][2] = None
            else:
                drops.setdefault((id(e), attr), (e, set()))[1].add(i)
        elif kind == "coords":
            [k for k in m.kids if k.tag.endswith("}coordinates")][0].text = text
            e["f"].pop(attr, None)
        else:
            if f.how == "a":
                m.attrs = [(k, text if k == f.node else v, q) for k, v, q in m.attrs]
            else:
                [k for k in m.kids if k.tag.split("}")[1] == f.node][0].text = text
            if text.lower() not in (str(s["f"][attr]).lower(),):  # only the case differs: readable when lenient
                e["f"].pop(attr, None)
    for e, idx in drops.values():
        for attr in ("track_items",):
            e["f"][attr] = [it for i, it in enumerate(e["f"][attr]) if i not in idx]
            if not e["f"][attr]:
                e["f"].pop(attr)
    # a multi track keeps only its non-empty tracks
    for _, s in list(V.walk(exp)):
        if s["c"] == "MultiTrack" and "tracks" in s["f"]:
            s["f"]["tracks"] = [t for t in s["f"]["tracks"] if t["f"].get("track_items")]
    return n, exp


def gen_hits(r, spec, n=None):
    sites = damage_sites(spec)
    if not sites:
        return []
    n = n or r.choice((1, 1, 1, 2, 4))
    out = []
    for path, attr, kind, sub in r.sample(sites, min(n, len(sites))):
        s = at(spec, path)
        f = V.FIELDS[s["c"]][attr]
        v = s["f"][attr]
        if kind == "coords":
            t = damage_text(r, kind, " ".join(",".join(map(repr, c)) for c in v))
        elif kind == "track":
            what, i = sub
            if what == "when":
                t = damage_text(r, "date", V.date_text(v[i][0]))
            else:
                t = damage_text(r, "track", " ".join(map(repr, v[i][1] if what == "coord" else (v[i][2] or [0., 0., 0.]))))
        else:
            t = damage_text(r, kind, V.text_of(f, v))
        out.append([[list(p) for p in path], attr, kind, sub, t])
    return out


# ---------------------------------------------------------------- invalid documents
def invalidate(spec, r, mark):
    """A schema-invalid variant of a valid spec; `mark` appears in the schema error."""
    s = copy.deepcopy(spec)
    feats = [x for _, x in V.walk(s) if x["c"] in V.FEATURE_CLASSES]
    injure(r.choice(feats), r, mark)
    return s


def injure(x, r, mark):
    """Give a feature a value that the schema refuses."""
    k = r.random()
    if k < 0.4:
        x["f"]["view"] = {"c": "Camera", "f": {"longitude": 1.0, "latitude": float(mark)}}
    elif k < 0.7:
        x["f"]["styles"] = [{"c": "Style", "f": {"styles": [{"c": "LineStyle", "f": {"color": "zz%s" % mark, "width": 1.0}}]}}]
    else:
        x["f"]["region"] = {"c": "Region", "f": {"lat_lon_alt_box": {"c": "LatLonAltBox", "f": {
            "north": float(mark), "south": 0.0, "east": 1.0, "west": 0.0}}}}


# ---------------------------------------------------------------- operations
class Base:
    @staticmethod
    def prepare(op, env):
        return {}

    @staticmethod
    def digest(op, ctx, out):
        if isinstance(out, Err):
            return "E:" + type(out.exc).__name__
        v = out.value
        return "V:" + (v if isinstance(v, str) else repr(v))


def parse_source(op, env, name):
    """The thing handed to KML.parse for op["src"]."""
    text = render_op(op)
    enc = op.get("enc", "utf-8")
    data = text.encode(enc, "xmlcharrefreplace")
    if enc == "utf-8" and op.get("bom"):
        data = b"\xef\xbb\xbf" + data
    src = op.get("src", "bytesio")
    pieces = op.get("pieces") or [4096]
    skip = op.get("skip", 0)
    if skip:
        data, text = b"#" * skip + data, "#" * skip + text
    if src in ("bytesio", "stringio"):
        f = io.BytesIO(data) if src == "bytesio" else io.StringIO(text)
        f.seek(skip)
        return f
    if src == "sim":
        return rt.SimStream(data, pieces, op.get("fault"))
    if src == "buffered":
        f = io.BufferedReader(rt.SimStream(data, pieces, op.get("fault")), 16 + pieces[0])
        while skip:
            skip -= len(f.read(skip))
        return f
    if src == "text":
        return rt.SimText(text, pieces, op.get("fault"))
    path = os.path.join(env.dir, name + ".kml")
    if src == "zip":
        path = os.path.join(env.dir, name + ".kmz")
        with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED) as z:
            z.writestr("doc.kml", data)
        z = zipfile.ZipFile(path)
        env.keep.append(z)
        return z.open("doc.kml")
    with open(path, "wb") as f:
        f.write(data)
    if src in ("str", "path") and op.get("rel"):
        path = os.path.relpath(path)
    if src == "str":
        return path
    if src == "path":
        return pathlib.Path(path)
    if src == "binfile":
        f = open(path, "rb")
        f.read(skip)
        env.keep.append(f)
        return f
    if src == "textfile":
        f = open(path, encoding="utf-8")
        f.read(skip)
        env.keep.append(f)
        return f
    raise AssertionError(src)


def render_op(op):
    kns = V.OLDKML if op.get("old") else V.KML
    if op.get("hits"):
        n, _ = apply_damage(op["spec"], op["hits"], kns)
    else:
        n = V.tree(op["spec"], kns=kns, z=op.get("z", "Z"))
    return V.xml_text(n, op.get("style", "default"), op.get("pretty", True), op.get("decl"))


SPACES = {"kml": "{%s}" % V.KML, "atom": "{%s}" % V.ATOM, "gx": "{%s}" % V.GX}


def ns_given(op):
    """The additional name spaces the caller gives."""
    return {"own%d" % op["ns"]: "{urn:own%d}" % op["ns"]} if op.get("ns") else {}


def ns_kw(op):
    return {"name_spaces": ns_given(op)} if op.get("ns") else {}


def gen_ns(r):
    return r.randint(1, 9) if r.random() < 0.3 else 0


def ns_check(op, obj):
    want = {**SPACES, **ns_given(op)}
    if op.get("old"):
        want["kml"] = "{%s}" % V.OLDKML
    if obj.name_spaces != want:
        return "the name spaces are %r" % (obj.name_spaces,)
    return None


class Parse(Base):
    """KML.parse of a rendered document; hits: damaged values."""

    @staticmethod
    def gen(r, damaged=None):
        op = {"op": "parse", "spec": V.gen_kml(r, dense(r)), "strict": r.random() < 0.6,
              "validate": r.choice((None, None, True, False)),
              "src": r.choice(("bytesio", "sim", "path", "str", "stringio", "zip")),
              "style": r.choice(("default", "prefix")), "pretty": r.random() < 0.5, "z": r.choice(("Z", "+00:00")),
              "ns": gen_ns(r), "rel": r.random() < 0.25}
        if op["src"] == "sim":
            op["pieces"] = [r.choice((1, 7, 64, 1000)) for _ in range(3)]
        if damaged if damaged is not None else r.random() < 0.3:
            op["hits"] = gen_hits(r, op["spec"])
            op["validate"] = False
        if r.random() < 0.15:
            op["old"] = True
            op["validate"] = False
        return op

    @staticmethod
    def prepare(op, env):
        return {"src": parse_source(op, env, env.name())}

    @staticmethod
    def run(op, ctx, env):
        from fastkml import KML
        return KML.parse(ctx["src"], strict=op["strict"], validate=op["validate"], **ns_kw(op))

    @staticmethod
    def expected(op):
        if op.get("hits"):
            return None if op["strict"] else apply_damage(op["spec"], op["hits"])[1]
        return op["spec"]

    @staticmethod
    def check(op, ctx, out, env, logs):
        exp = Parse.expected(op)
        if exp is None:
            if not isinstance(out, Err):
                return "strict reading accepted damaged values %r" % [[h[1], h[2], h[4]] for h in op["hits"]]
            if type(out.exc).__name__ != "KMLParseError":
                return "strict reading of damaged values raised %r" % out.exc
            return None
        if isinstance(out, Err):
            return "raised %s: %s" % (type(out.exc).__name__, out.exc)
        return V.same(exp, V.summarize(out.value)) or ns_check(op, out.value)

    @staticmethod
    def digest(op, ctx, out):
        if isinstance(out, Err):
            return "E:" + type(out.exc).__name__ + str(out.exc)
        return "V:" + repr(V.summarize(out.value)) + " %d" % rt.h(repr(out.value))


class FromString(Base):
    """from_string of KML or any other element class."""

    @staticmethod
    def gen(r, damaged=None):
        spec = V.gen_kml(r, dense(r), valid=False)
        subs = subspecs(spec)
        s = spec if r.random() < 0.5 or not subs else r.choice(subs)
        op = {"op": "from_string", "spec": s, "strict": r.random() < 0.6, "style": r.choice(("default", "prefix")),
              "pretty": r.random() < 0.5, "ns": gen_ns(r)}
        if damaged if damaged is not None else r.random() < 0.3:
            op["hits"] = gen_hits(r, s)
        return op

    @staticmethod
    def prepare(op, env):
        return {"text": render_op(op)}

    @staticmethod
    def run(op, ctx, env):
        return V.lib(op["spec"]["c"]).from_string(ctx["text"], strict=op["strict"], **ns_kw(op))

    check = Parse.check
    digest = Parse.digest


class FromElement(Base):
    """class_from_element, from an element the caller keeps."""

    @staticmethod
    def gen(r, damaged=None):
        return {**FromString.gen(r, damaged), "op": "from_element"}

    @staticmethod
    def prepare(op, env):
        from fastkml import config
        return {"el": config.etree.fromstring(render_op(op))}

    @staticmethod
    def run(op, ctx, env):
        c = op["spec"]["c"]
        ns = {"kml": V.KML, "gx": V.GX, "atom": V.ATOM}[V.CLASSES[c][3]]
        return V.lib(c).class_from_element(ns="{%s}" % ns, element=ctx["el"], strict=op["strict"], **ns_kw(op))

    check = Parse.check
    digest = Parse.digest


class Build(Base):
    """Construct a document and serialise it."""

    @staticmethod
    def gen(r):
        return {"op": "build", "spec": V.gen_kml(r, dense(r), valid=False), "ns": gen_ns(r), **out_opts(r)}

    @staticmethod
    def run(op, ctx, env):
        doc = V.build(op["spec"], **ns_kw(op))
        return doc, doc.to_string(**kw_opts(op))

    @staticmethod
    def check(op, ctx, out, env, logs):
        if isinstance(out, Err):
            return "raised %s: %s" % (type(out.exc).__name__, out.exc)
        doc, text = out.value
        return V.diff_xml(V.tree(op["spec"], op["prec"], op["verb"]), text) or V.same(op["spec"], V.summarize(doc)) or ns_check(op, doc)

    @staticmethod
    def digest(op, ctx, out):
        return Base.digest(op, ctx, Ok(out.value[1]) if isinstance(out, Ok) else out)


def doc_of(op, ctx, env):
    """The document an operation on a document works on: the shared one or its own."""
    return env.shared if op.get("shared") else ctx["doc"]


def spec_of(op, env):
    return env.shared_spec if op.get("shared") else op["spec"]


class DocOp(Base):
    @classmethod
    def gen(cls, r, shared=False):
        op = {"op": cls.name, **cls.args(r)}
        if shared:
            op["shared"] = 1
        else:
            op["spec"] = V.gen_kml(r, dense(r), valid=cls.need_valid)
        return op

    need_valid = False

    @staticmethod
    def args(r):
        return {}

    @staticmethod
    def prepare(op, env):
        return {} if op.get("shared") else {"doc": V.build(op["spec"])}


class ToString(DocOp):
    name = "to_string"

    @staticmethod
    def args(r):
        return {**out_opts(r), "how": r.choice(("to_string", "to_string", "str", "etree"))}

    @staticmethod
    def run(op, ctx, env):
        d = doc_of(op, ctx, env)
        if op["how"] == "str":
            return str(d)
        if op["how"] == "etree":
            from fastkml import config
            e = d.etree_element(precision=op["prec"], verbosity=verb(op["verb"]))
            return config.etree.tostring(e, encoding="unicode")
        return d.to_string(**kw_opts(op))

    @staticmethod
    def check(op, ctx, out, env, logs):
        if isinstance(out, Err):
            return "raised %s: %s" % (type(out.exc).__name__, out.exc)
        p, v = (None, "normal") if op["how"] == "str" else (op["prec"], op["verb"])
        return V.diff_xml(V.tree(spec_of(op, env), p, v), out.value)


class Part(DocOp):
    """Serialise one element of the document on its own."""
    name = "part"

    @staticmethod
    def args(r):
        return {**out_opts(r), "pick": r.random()}

    @staticmethod
    def prepare(op, env):
        ctx = DocOp.prepare(op, env)
        ps = [p for p in pairs(env.shared if op.get("shared") else ctx["doc"], spec_of(op, env))]
        ctx["obj"], ctx["spec"] = ps[int(op["pick"] * len(ps)) % len(ps)]
        return ctx

    @staticmethod
    def run(op, ctx, env):
        return ctx["obj"].to_string(**kw_opts(op))

    @staticmethod
    def check(op, ctx, out, env, logs):
        if isinstance(out, Err):
            return "raised %s: %s" % (type(out.exc).__name__, out.exc)
        return V.diff_xml(V.tree(ctx["spec"], op["prec"], op["verb"]), out.value)


def read_back(path):
    if path.suffix == ".kmz":
        with zipfile.ZipFile(path) as z:
            if z.testzip() is not None:
                raise ValueError("bad checksum in kmz")
            return z.read("doc.kml").decode("utf-8")
    return path.read_bytes().decode("utf-8")


class Write(DocOp):
    name = "write"

    @staticmethod
    def args(r):
        return {**out_opts(r), "ext": r.choice((".kml", ".kml", ".kmz", ".xml", ".KML")), "rel": r.random() < 0.25}

    @staticmethod
    def prepare(op, env):
        p = pathlib.Path(env.dir) / (env.target() + op["ext"])
        return {**DocOp.prepare(op, env), "path": pathlib.Path(os.path.relpath(p)) if op.get("rel") else p}

    @staticmethod
    def run(op, ctx, env):
        doc_of(op, ctx, env).write(ctx["path"], **kw_opts(op))

    @staticmethod
    def check(op, ctx, out, env, logs):
        if isinstance(out, Err):
            return "raised %s: %s" % (type(out.exc).__name__, out.exc)
        try:
            text = read_back(ctx["path"])
        except Exception as e:  # noqa: BLE001
            return "written file is unreadable: %r" % e
        ctx["text"] = text
        return V.diff_xml(V.tree(spec_of(op, env), op["prec"], op["verb"]), text)

    @staticmethod
    def digest(op, ctx, out):
        if isinstance(out, Err):
            return Base.digest(op, ctx, out)
        try:
            return "V:" + read_back(ctx["path"])
        except Exception as e:  # noqa: BLE001
            return "U:" + repr(e)


class Validate(DocOp):
    """Validation of a valid document (object, element or file)."""
    name = "validate"
    need_valid = True

    @staticmethod
    def args(r):
        return {"how": r.choice(("object", "element", "file"))}

    @staticmethod
    def prepare(op, env):
        ctx = DocOp.prepare(op, env)
        if op["how"] == "file":
            ctx["path"] = pathlib.Path(env.dir) / (env.name() + ".kml")
            ctx["path"].write_text(V.render(spec_of(op, env)), encoding="utf-8")
        return ctx

    @staticmethod
    def run(op, ctx, env):
        from fastkml import validator
        if op["how"] == "file":
            return validator.validate(file_to_validate=ctx["path"])
        d = doc_of(op, ctx, env)
        return d.validate() if op["how"] == "object" else validator.validate(element=d.etree_element())

    @staticmethod
    def check(op, ctx, out, env, logs):
        if isinstance(out, Err):
            return "valid document: raised %s: %s" % (type(out.exc).__name__, out.exc)
        want = True if env.backend == "lxml" else None
        if out.value is not want:
            return "valid document: validate gave %r" % (out.value,)
        if any(lv == "ERROR" for lv, _ in logs):
            return "valid document: validation logged %r" % (logs[0],)
        return None


class ValidateBad(DocOp):
    """Validation of an invalid document: object, element, file or strict reading."""
    name = "validate_bad"
    need_valid = True

    @classmethod
    def gen(cls, r, shared=False):
        mark = r.randint(1000, 99999)
        spec = V.gen_kml(r, dense(r))
        return {"op": cls.name, "how": r.choice(("object", "element", "file", "parse")), "mark": mark,
                "spec": invalidate(spec, r, mark)}

    @staticmethod
    def prepare(op, env):
        ctx = {"doc": V.build(op["spec"])}
        if op["how"] in ("file", "parse"):
            ctx["path"] = pathlib.Path(env.dir) / (env.name() + ".kml")
            ctx["path"].write_text(V.render(op["spec"]), encoding="utf-8")
        return ctx

    @staticmethod
    def run(op, ctx, env):
        from fastkml import KML
        from fastkml import validator
        if op["how"] == "parse":
            return KML.parse(ctx["path"], strict=True)
        if op["how"] == "file":
            return validator.validate(file_to_validate=ctx["path"])
        return ctx["doc"].validate() if op["how"] == "object" else validator.validate(element=ctx["doc"].etree_element())

    @staticmethod
    def check(op, ctx, out, env, logs):
        if env.backend != "lxml":
            if op["how"] == "parse":
                if isinstance(out, Err):
                    return "reading without a validator raised %r" % out.exc
                return V.same(op["spec"], V.summarize(out.value))
            if isinstance(out, Err) or out.value is not None:
                return "validation without a validator gave %r" % (getattr(out, "exc", getattr(out, "value", None)),)
            return None
        if not isinstance(out, Err):
            return "invalid document was accepted"
        if not isinstance(out.exc, AssertionError):
            return "invalid document: raised %s: %s" % (type(out.exc).__name__, out.exc)
        m = str(op["mark"])
        if m not in str(out.exc):
            return "the error raised belongs to another document: %s" % out.exc
        errs = [t for lv, t in logs if lv == "ERROR"]
        if not errs:
            return "no validation error was logged"
        for t in errs:
            if m not in t:
                return "a logged error belongs to another document: %s" % t[:300]
        return None

    @staticmethod
    def digest(op, ctx, out):
        if isinstance(out, Ok) and op["how"] == "parse":
            return "V:" + repr(V.summarize(out.value))
        return Base.digest(op, ctx, out)


FIND_TYPES = ["Placemark", "Folder", "Document", "Style", "StyleMap", "Point", "LineString", "LinearRing", "Polygon",
              "LineStyle", "Icon", "Link", "Data", "SimpleData", "Camera", "LookAt", "Region", "GroundOverlay",
              "NetworkLink", "ScreenOverlay", "Track", "Snippet", "TimeStamp", "Lod", "MultiGeometry", "Pair", "KML"]


def find_expected(doc, spec, q):
    """Objects (with specs) a query must give, in one allowed order."""
    out = []
    types = q["types"]
    for o, s in pairs(doc, spec):
        if types is not None:
            ok = any(isinstance(o, V.lib(t)) for t in types)
            if not ok:
                continue
        elif not q["attrs"]:
            continue
        if all(attr_equals(o, a, s, v) for a, v in q["attrs"].items()):
            out.append(o)
    return out


def attr_equals(o, a, s, v):
    if not hasattr(o, a):
        return False
    if a in ("id", "target_id"):
        return s["f"].get(a, "") == v
    return s["f"].get(a) == v


def find_query(r, spec):
    """A random query that makes sense for the document."""
    present = sorted({s["c"] for _, s in V.walk(spec)} - {"OuterBoundaryIs", "InnerBoundaryIs"})
    k = r.random()
    types = [r.choice(present)] if k < 0.6 else [r.choice(present), r.choice(FIND_TYPES)] if k < 0.85 else [r.choice(FIND_TYPES)]
    attrs = {}
    if r.random() < 0.35:
        cands = []
        for _, s in V.walk(spec):
            for a, v in s["f"].items():
                f = V.FIELDS[s["c"]][a]
                if f.kind in ("text", "atext", "id", "bool", "float", "int", "uri", "color") and f.how in "sat":
                    cands.append((s["c"], a, v))
        if cands:
            c, a, v = r.choice(cands)
            attrs = {a: v}
            if r.random() < 0.4:
                others = [x for x in cands if x[0] == c and x[1] != a]
                if others:
                    _, a2, v2 = r.choice(others)
                    attrs[a2] = v2
            if r.random() < 0.8:
                types = [c]
            elif a == "id":
                types = None
    return {"types": types, "attrs": attrs}


def find_kwargs(q):
    kw = dict(q["attrs"])
    if q["types"] is not None:
        t = [V.lib(x) for x in q["types"]]
        kw["of_type"] = t[0] if len(t) == 1 else tuple(t)
    return kw


def find_check(doc, spec, q, got, complete=True):
    exp = find_expected(doc, spec, q)
    ids = [id(o) for o in exp]
    g = [id(o) for o in got]
    if len(set(g)) != len(g):
        return "a match was given twice"
    extra = [o for o in got if id(o) not in set(ids)]
    if extra:
        return "%s does not match the query %r" % (type(extra[0]).__name__, q)
    if complete and len(g) != len(ids):
        return "%d of %d matches were given for %r" % (len(g), len(ids), q)
    # order: parents before children, siblings of one list in order
    posn = {x: i for i, x in enumerate(g)}
    return order_problem(doc, spec, posn)


def order_problem(doc, spec, posn):
    def visit(o, s):
        """Positions of all matches below o (o included)."""
        mine = [posn[id(o)]] if id(o) in posn else []
        for attr, v in s["f"].items():
            f = V.FIELDS[s["c"]][attr]
            groups = []
            if f.how == "c":
                groups = [visit(getattr(o, attr), v)]
            elif f.how == "l":
                groups = [visit(x, y) for x, y in zip(getattr(o, attr), v)]
            last = -1
            for gr in groups:
                if isinstance(gr, str):
                    return gr
                if gr:
                    if id(o) in posn and min(gr) < posn[id(o)]:
                        return "a child was given before its parent"
                    if min(gr) < last:
                        return "siblings were given out of document order"
                    last = max(last, max(gr))
                    mine += gr
        return mine
    r = visit(doc, spec)
    return r if isinstance(r, str) else None


class Find(DocOp):
    name = "find"

    @classmethod
    def gen(cls, r, shared=False, spec=None):
        op = super().gen(r, shared)
        op["q"] = find_query(r, spec or op["spec"])
        op["first"] = r.random() < 0.25
        return op

    @staticmethod
    def run(op, ctx, env):
        from fastkml import utils
        d = doc_of(op, ctx, env)
        if op["first"]:
            return utils.find(d, **find_kwargs(op["q"]))
        return list(utils.find_all(d, **find_kwargs(op["q"])))

    @staticmethod
    def check(op, ctx, out, env, logs):
        if isinstance(out, Err):
            return "raised %s: %s" % (type(out.exc).__name__, out.exc)
        d, s = doc_of(op, ctx, env), spec_of(op, env)
        if op["first"]:
            exp = find_expected(d, s, op["q"])
            if out.value is None:
                return "nothing was found" if exp else None
            return find_check(d, s, op["q"], [out.value], complete=False)
        return find_check(d, s, op["q"], out.value)

    @staticmethod
    def digest(op, ctx, out):
        if isinstance(out, Err):
            return Base.digest(op, ctx, out)
        v = out.value
        v = v if isinstance(v, list) else [v]
        return "V:" + repr([type(o).__name__ for o in v])


class Repr(DocOp):
    name = "repr"

    @staticmethod
    def run(op, ctx, env):
        return repr(doc_of(op, ctx, env))

    @staticmethod
    def check(op, ctx, out, env, logs):
        if isinstance(out, Err):
            return "raised %s: %s" % (type(out.exc).__name__, out.exc)
        if not out.value.startswith("fastkml.kml.KML("):
            return "unexpected representation %r" % out.value[:80]
        return None


class Eq(DocOp):
    """Compare the document with an equal and a different one."""
    name = "eq"

    @staticmethod
    def prepare(op, env):
        ctx = DocOp.prepare(op, env)
        s = spec_of(op, env)
        ctx["same"] = env.maker(s)
        s2 = copy.deepcopy(s)
        fs = [x for _, x in V.walk(s2) if x["c"] in V.FEATURE_CLASSES]
        if fs:
            fs[len(fs) // 2]["f"]["name"] = "a different name"
        else:
            s2["f"]["features"] = s2["f"].get("features", []) + [{"c": "Placemark", "f": {"name": "a different name"}}]
        ctx["other"] = env.maker(s2)
        return ctx

    @staticmethod
    def run(op, ctx, env):
        d = doc_of(op, ctx, env)
        return [d == ctx["same"], ctx["same"] == d, d == ctx["other"], d != ctx["same"]]

    @staticmethod
    def check(op, ctx, out, env, logs):
        if isinstance(out, Err):
            return "raised %s: %s" % (type(out.exc).__name__, out.exc)
        if [bool(x) for x in out.value] != [True, True, False, False]:
            return "comparison gave %r" % out.value
        return None


def plain_geometry(g):
    """A geometry as nested lists: [type, coordinates]."""
    if g is None:
        return None
    if type(g).__name__.startswith(("Multi", "GeometryCollection")):
        return [type(g).__name__, [plain_geometry(x) for x in g.geoms]]
    if hasattr(g, "exterior"):
        return [type(g).__name__, [[list(c) for c in x.coords] for x in (g.exterior, *g.interiors)]]
    return [type(g).__name__, [list(c) for c in g.coords]]


DERIVED = ("geometry", "whens", "coords", "angles", "time_stamp", "begin", "end", "icon_href", "normal", "highlight")


def derived(o):
    """What the computed attributes of an object give."""
    out = {}
    for a in DERIVED:
        if isinstance(getattr(type(o), a, None), property):
            try:
                v = getattr(o, a)
                out[a] = plain_geometry(v) if a == "geometry" else repr(v)
            except (ArithmeticError, LookupError, ValueError, TypeError, AttributeError) as e:  # compared with the same call elsewhere
                out[a] = ["raised", type(e).__name__ + str(e)]
    return out


class Geometry(DocOp):
    """Read the geometry and the other computed attributes of every element."""
    name = "geometry"

    @staticmethod
    def args(r):
        return {"from": r.random()}

    @staticmethod
    def run(op, ctx, env):
        ps = list(pairs(doc_of(op, ctx, env), spec_of(op, env)))
        k = int(op.get("from", 0) * len(ps))
        out = [None] * len(ps)
        for i in [*range(k, len(ps)), *range(k)]:
            out[i] = derived(ps[i][0])
        return out

    @staticmethod
    def check(op, ctx, out, env, logs):
        if isinstance(out, Err):
            return "raised %s: %s" % (type(out.exc).__name__, out.exc)
        for (_, sp), got in zip(V.walk(spec_of(op, env)), out.value):
            f, c, exp = sp["f"], sp["c"], None
            if sp.get("void"):
                continue
            if c in ("Point", "LineString", "LinearRing"):
                exp = f["coords"]
                got = got["geometry"] and got["geometry"][1]
            elif c == "Placemark" and f.get("kml_geometry", {}).get("c") == "Point" and f["kml_geometry"]["f"]:
                exp = f["kml_geometry"]["f"]["coords"]
                got = got["geometry"] and got["geometry"][1]
            elif c == "Polygon":
                exp = [f["outer_boundary"]["f"]["kml_geometry"]["f"]["coords"]]
                got = got["geometry"] and got["geometry"][1][:1]
            elif c == "Track":
                exp = repr(tuple(tuple(it[1]) for it in f["track_items"]))
                got = got["coords"]
            elif c in V.FEATURE_CLASSES:
                t = f.get("times", {"f": {}})["f"]
                exp = [a in t for a in ("timestamp", "begin", "end")]
                got = [got[a] != "None" for a in ("time_stamp", "begin", "end")]
            else:
                continue
            if exp != got:
                return "computed attributes of %s: expected %s, got %s" % (c, V.short(exp), V.short(got))
        return None


class StyleByUrl(DocOp):
    """Document.get_style_by_url for every style id of a document."""
    name = "style_by_url"

    @staticmethod
    def prepare(op, env):
        ctx = DocOp.prepare(op, env)
        d, s = doc_of(op, ctx, env), spec_of(op, env)
        ctx["todo"] = []
        for o, sp in pairs(d, s):
            if sp["c"] == "Document":
                ids = [(x, y["f"]["id"]) for x, y in pairs(o, sp) if y["c"] in ("Style", "StyleMap") and "id" in y["f"]]
                ids = ids[::len(ids) // 8] + ids[-1:] if len(ids) > 20 else ids
                ctx["todo"] += [(o, x, i) for x, i in ids] + [(o, None, "no-such-style")]
        return ctx

    @staticmethod
    def run(op, ctx, env):
        return [o.get_style_by_url("http://x/doc.kml#" + i) for o, _, i in ctx["todo"]]

    @staticmethod
    def check(op, ctx, out, env, logs):
        if isinstance(out, Err):
            return "raised %s: %s" % (type(out.exc).__name__, out.exc)
        for got, (_, want, i) in zip(out.value, ctx["todo"]):
            if got is not want:
                return "get_style_by_url(#%s) gave %r" % (i, got)
        return None

    @staticmethod
    def digest(op, ctx, out):
        return Base.digest(op, ctx, out) if isinstance(out, Err) else "V:%d" % len(out.value)


class Mutate(DocOp):
    """Change an own document and serialise it."""
    name = "mutate"

    @staticmethod
    def args(r):
        g = V.Gen(r, 0.1, 4)
        return {"add": [g.spec("Placemark", 3) for _ in range(r.choice((1, 2)))], **out_opts(r),
                "name": V.g_text(r)}

    @staticmethod
    def prepare(op, env):
        ctx = {"doc": V.build(op["spec"]), "add": [V.build(s) for s in op["add"]]}
        return ctx

    @staticmethod
    def expected(op):
        s = copy.deepcopy(op["spec"])
        c = s["f"]["features"][-1]
        if c["c"] in ("Document", "Folder"):
            c["f"]["features"] = c["f"].get("features", []) + op["add"]
        else:
            s["f"]["features"] += op["add"]
        if c["c"] != "NetworkLinkControl":
            c["f"]["name"] = op["name"]
        return s

    @staticmethod
    def run(op, ctx, env):
        d = ctx["doc"]
        c = d.features[-1]
        for o in ctx["add"]:
            (c if hasattr(c, "append") else d).append(o)
        if hasattr(c, "name"):
            c.name = op["name"]
        return d.to_string(**kw_opts(op))

    @staticmethod
    def check(op, ctx, out, env, logs):
        if isinstance(out, Err):
            return "raised %s: %s" % (type(out.exc).__name__, out.exc)
        s = Mutate.expected(op)
        return V.diff_xml(V.tree(s, op["prec"], op["verb"]), out.value) or V.same(s, V.summarize(ctx["doc"]))


class Bad(Base):
    """Calls that must fail with their own error and nothing else."""

    @staticmethod
    def gen(r):
        return {"op": "bad", "what": r.choice(("xml", "dims", "twice", "schema_id", "selfappend", "enum"))}

    @staticmethod
    def run(op, ctx, env):
        from fastkml import KML
        from fastkml import geometry
        from fastkml.containers import Folder
        from fastkml.data import Schema
        import pygeoif.geometry as geo
        w = op["what"]
        if w == "xml":
            return KML.from_string("<kml><Document></kml>")
        if w == "dims":
            return geometry.Coordinates(coords=[(1.0,), (2.0,)]).to_string()
        if w == "twice":
            return geometry.Point(geometry=geo.Point(1, 2), kml_coordinates=geometry.Coordinates(coords=[(1., 2.)]))
        if w == "schema_id":
            return Schema(id="")
        if w == "selfappend":
            f = Folder()
            return f.append(f)
        return geometry.Point.from_string(
            '<Point xmlns="%s"><altitudeMode>nowhere</altitudeMode><coordinates>1,2</coordinates></Point>' % V.KML)

    @staticmethod
    def check(op, ctx, out, env, logs):
        if not isinstance(out, Err):
            return "%s: accepted" % op["what"]
        want = {"xml": ("XMLSyntaxError", "ParseError"), "dims": ("KMLWriteError",), "twice": ("GeometryError",),
                "schema_id": ("KMLSchemaError",), "selfappend": ("ValueError",), "enum": ("KMLParseError",)}[op["what"]]
        if type(out.exc).__name__ not in want:
            return "%s: raised %r" % (op["what"], out.exc)
        return None


OPS = {"parse": Parse, "from_string": FromString, "from_element": FromElement, "build": Build, "to_string": ToString, "part": Part,
       "write": Write, "validate": Validate, "validate_bad": ValidateBad, "find": Find, "repr": Repr, "eq": Eq,
       "geometry": Geometry, "style_by_url": StyleByUrl, "mutate": Mutate, "bad": Bad}
OWN = [("parse", 5), ("from_string", 4), ("from_element", 1), ("build", 3), ("to_string", 2), ("part", 1), ("write", 3), ("validate", 1),
       ("validate_bad", 1), ("find", 2), ("repr", 1), ("eq", 1), ("geometry", 1), ("style_by_url", 1),
       ("mutate", 2), ("bad", 2)]
SHARED = [("to_string", 5), ("part", 3), ("write", 3), ("validate", 1), ("find", 3), ("repr", 2), ("eq", 2),
          ("geometry", 2), ("style_by_url", 1)]


def pick(r, table):
    tot = sum(w for _, w in table)
    x = r.random() * tot
    for k, w in table:
        x -= w
        if x < 0:
            return k
    return table[-1][0]


def gen_op(r, table=OWN, shared=False, spec=None):
    k = pick(r, table)
    if shared:
        return Find.gen(r, True, spec) if k == "find" else OPS[k].gen(r, shared=True)
    return OPS[k].gen(r)


def twin(r, op):
    """The same operation on a document of the same structure with other values."""
    if "spec" not in op or op["op"] == "validate_bad":
        return OPS[op["op"]].gen(r)
    t = {**op, "spec": V.revalue(r, op["spec"])}
    if "hits" in op:
        t["hits"] = gen_hits(r, t["spec"], max(1, len(op["hits"])))
    if "q" in op:
        t["q"] = find_query(r, t["spec"])
    return t


class Env:
    def __init__(self, dir_, backend="lxml"):
        self.dir, self.backend = dir_, backend
        self.n = 0
        self.keep = []
        self.shared = self.shared_spec = None
        self.maker = V.build
        self.tag = ""

    def name(self):
        self.n += 1
        return "%sf%d" % (self.tag, self.n)

    def target(self):
        """Name (without ending) of a file to write; may be the same in several environments."""
        return self.name()[len(self.tag):]

    def close(self):
        for k in self.keep:
            try:
                k.close()
            except Exception:  # noqa: BLE001, S110
                pass


def execute(op, ctx, env):
    try:
        return Ok(OPS[op["op"]].run(op, ctx, env))
    except Exception as e:  # noqa: BLE001
        return Err(e)


def check(op, ctx, out, env, logs):
    return OPS[op["op"]].check(op, ctx, out, env, logs)


def shrink_op(op):
    """Smaller variants of an operation."""
    if "spec" in op and op["op"] != "validate_bad":
        for s in V.shrinks(op["spec"]):
            if op.get("hits"):
                try:
                    ok = all(hits_fit(s, hh) for hh in op["hits"])
                except (KeyError, IndexError):
                    ok = False
                if not ok:
                    continue
            yield {**op, "spec": s}
    if op.get("hits") and len(op["hits"]) > 1:
        for i in range(len(op["hits"])):
            yield {**op, "hits": op["hits"][:i] + op["hits"][i + 1:]}
    if op.get("add") and len(op["add"]) > 1:
        yield {**op, "add": op["add"][:1]}
    for k, v in (("pieces", None), ("src", "bytesio"), ("prec", None), ("verb", "normal"), ("pp", False)):
        if k in op and op[k] != v and not (k == "src" and op.get("fault")):
            yield {**op, k: v}


def hits_fit(spec, hit):
    s = at(spec, [tuple(p) for p in hit[0]])
    v = s["f"][hit[1]]
    return hit[2] != "track" or hit[3][1] < len(v)
