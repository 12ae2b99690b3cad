"""No call changes documents or arguments it was not asked to change."""
import copy
import enum
import io
import os
import pickle

from sim import change as CH
from sim import inject
from sim import ops as O
from sim import runner
from sim import runtime as rt
from sim import vocab as V

ID = "C13"
LEVEL = "exploration"
VOID = (0, 0, 0.5)
WIDE = 0.006
RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("a history of 3 to 16 steps over a growing set of documents: building from lists, geometries and name space mappings "
        "that the caller keeps; reading (string, stream, element) with such mappings, the same text again later; changing one "
        "document (values, children); read-only operations; failing calls (damaged input, failing sources, interruptions, "
        "unserialisable content); the caller changing its own lists and mappings; creating empty objects; copying documents (deepcopy, pickle). After every step "
        "each document is compared with a model that knows only the operations applied to it, and each argument with a copy. "
        "Non-trivial: at least two documents and one change or failure.")
DISTINCT = "hash of the steps and the contents of all documents"
REAL = ["fastkml (all modules)", "lxml / xml.etree", "pygeoif"]
STUB = ["input streams (sometimes)", "the source of interruptions"]
ASSUME = ["documents do not share children (the caller does not put one object into two documents)"]
KINDS = ("KeyboardInterrupt", "MemoryError", "SimTimeout", "RecursionError")


def no_nlc(spec):
    return not any(s["c"] == "NetworkLinkControl" for _, s in V.walk(spec))


def gen(r, tier):
    steps, texts = [], []
    void, r.void = r.void, 0
    for _ in range(r.choice((3, 6, 10, 16))):
        k = r.random()
        if k < 0.14 or not steps:
            r.void = void
            steps.append({"do": "build", "spec": V.gen_kml(r, O.dense(r), valid=False), "ns": r.choice((0, 0, 1, 2))})
            r.void = 0
        elif k < 0.32:
            spec = V.gen_kml(r, O.dense(r), valid=False)
            while not no_nlc(spec):
                spec = V.gen_kml(r, O.dense(r), valid=False)
            if texts and r.random() < 0.4:
                spec = r.choice(texts)
            spec = V.solid(spec)
            texts.append(spec)
            old = [s for s in steps if s["do"] == "read"]
            if old and r.random() < 0.35:
                steps.append({**r.choice(old), "spec": copy.deepcopy(old[-1]["spec"])} if r.random() < 0.3 else copy.deepcopy(r.choice(old)))
                continue
            steps.append({"do": "read", "spec": spec, "how": r.choice(("string", "stream", "element")), "ns": r.choice((0, 1, 1, 2)),
                          "strict": r.random() < 0.6, "style": r.choice(("default", "prefix", "padded"))})
        elif k < 0.5:
            steps.append({"do": "change", "doc": r.random(), "at": r.random(), "seed": r.randrange(10 ** 9),
                          "kind": r.choice((*CH.KINDS, "spaces"))})
        elif k < 0.64:
            steps.append({"do": "use", "doc": r.random(), "op": {**O.gen_op(r, [x for x in O.SHARED if x[0] not in ("find", "validate")], True)}})
        elif k < 0.80:
            f = {"do": "fail", "how": r.choice(("op", "damaged", "source", "interrupt", "interrupt", "serialise")), "doc": r.random(),
                 "kind": r.choice(KINDS), "at": r.random()}
            if f["how"] == "op":
                f["op"] = O.OPS["bad"].gen(r)
            elif f["how"] == "damaged":
                f["op"] = O.OPS[r.choice(("parse", "from_string"))].gen(r, damaged=True)
            elif f["how"] == "source":
                f["op"] = O.OPS["parse"].gen(r, damaged=False)
                f["op"].update(src="sim", fault=[r.randrange(3000), "EIO"], pieces=[64], validate=False)
            elif f["how"] == "interrupt":
                f["op"] = O.gen_op(r, [x for x in O.SHARED if x[0] not in ("find",)], True) if r.random() < 0.6 else O.gen_op(r)
            steps.append(f)
        elif k < 0.92:
            steps.append({"do": "caller", "which": r.random(), "kind": r.choice(("add", "clear", "drop"))})
        elif k < 0.96:
            steps.append({"do": "empty", "seed": r.randrange(10 ** 9)})
        else:
            steps.append({"do": "copy", "doc": r.random(), "how": r.choice(("deepcopy", "pickle"))})
    return {"backend": r.choice(("lxml", "lxml", "et")), "steps": steps}


class Kept:
    """An argument the caller keeps, and what it should look like."""

    def __init__(self, obj, what):
        self.obj, self.what = obj, what
        self.want = self.look()

    def look(self):
        if isinstance(self.obj, dict):
            return dict(self.obj)
        if isinstance(self.obj, list):
            return [id(x) for x in self.obj]
        return repr(self.obj)

    def problem(self):
        now = self.look()
        return None if now == self.want else "%s was changed: %s, now %s" % (self.what, V.short(self.want), V.short(now))


def build(spec, kept, **top):
    """Like V.build, but keeps the lists and geometries that are handed in."""
    import pygeoif.geometry as geo
    cls = spec["c"]
    kw = dict(top)
    for attr, v in spec["f"].items():
        f = V.FIELDS[cls][attr]
        if f.how == "c":
            kw[attr] = build(v, kept)
        elif f.how == "l":
            kw[attr] = [build(x, kept) for x in v]
            kept.append(Kept(kw[attr], "the list given as %s of %s" % (attr, cls)))
        elif f.how == "x":
            coords = [tuple(c) for c in v]
            kw["geometry"] = geo.Point(*coords[0]) if cls == "Point" else getattr(geo, cls)(coords)
            kept.append(Kept(kw["geometry"], "the geometry given to %s" % cls))
        elif f.how == "k":
            o = V.build({"c": cls, "f": {attr: v}})
            kw[attr] = list(o.track_items)
            kept.append(Kept(kw[attr], "the list of track items"))
        else:
            kw[attr] = V.value_obj(f, v)
    return V.lib(cls)(**kw)


def geometry_ok(spec):
    """Would a geometry object keep these coordinates? (It may drop repeated points.)"""
    for _, s in V.walk(spec):
        for a, v in s["f"].items():
            if V.FIELDS[s["c"]][a].how == "x":
                if any(p == q for p, q in zip(v, v[1:])):
                    return False
                if s["c"] == "LinearRing" and (len(v) < 4 or v[0] != v[-1]):
                    return False
                if len({len(p) for p in v}) != 1:
                    return False
    return True


def run(case, d, res):
    from fastkml import KML
    from fastkml import config
    be = case["backend"]
    rt.set_backend(be)
    docs, kept, ns = [], [], []       # docs: [object, model, origin, namespaces of the objects]
    spaces = {"own": "{http://example.com/own}", "x": "{urn:x}"}
    default = {"kml": "{%s}" % V.KML, "atom": "{%s}" % V.ATOM, "gx": "{%s}" % V.GX}
    did = 0
    start = rt.settings()

    def new_ns(n, full):
        m = {**default, **spaces} if full else dict(spaces)
        m["n%d" % n] = "{urn:n%d}" % n
        kept.append(Kept(m, "the name space mapping of step %d" % n))
        return m

    def add(doc, spec, origin):
        given = [*spaces, "n%d" % n] if st["ns"] else ()
        for o, _ in O.pairs(doc, spec):
            more = set(o.name_spaces) - set(default) - set(given)
            if more or any(o.name_spaces[k] != v for k, v in default.items()):
                res.fail("name spaces", "%s has name spaces that were not given to it: %s" % (origin, o.name_spaces))
        docs.append([doc, spec, origin, [dict(o.name_spaces) for o, _ in O.pairs(doc, spec)]])

    for n, st in enumerate(case["steps"]):
        res.steps += 1
        do = st["do"]
        what = "step %d (%s)" % (n, do)
        if do == "build":
            spec = copy.deepcopy(st["spec"])
            top = {"name_spaces": new_ns(n, st["ns"] == 2)} if st["ns"] else {}
            if geometry_ok(spec):
                doc = build(spec, kept, **top)
            else:
                doc = V.build(spec, **top)
            add(doc, spec, "build in step %d" % n)
        elif do == "read":
            text = V.render(st["spec"], st["style"])
            kw = {"name_spaces": new_ns(n, st["ns"] == 2)} if st["ns"] else {}
            try:
                if st["how"] == "string":
                    doc = KML.from_string(text, strict=st["strict"], **kw)
                elif st["how"] == "stream":
                    doc = KML.parse(io.BytesIO(text.encode("utf-8")), strict=st["strict"], validate=False, **kw)
                else:
                    el = config.etree.fromstring(text)
                    before = config.etree.tostring(el)
                    doc = KML.class_from_element(ns=config.KMLNS, element=el, strict=st["strict"], **kw)
                    if config.etree.tostring(el) != before:
                        res.fail("argument", "%s changed the element it was given" % what)
            except Exception as e:  # noqa: BLE001
                res.fail("read", "%s: %s: %s" % (what, type(e).__name__, e))
                return
            s = V.summarize(doc)
            spec = V.regroup(st["spec"], s)
            bad = V.same(spec, s)
            if bad:
                res.fail("read", "%s: %s" % (what, bad))
                return
            add(doc, copy.deepcopy(spec), "read in step %d" % n)
        elif do == "caller":
            if not kept:
                continue
            a = kept[int(st["which"] * len(kept))]
            did += change_arg(a, st["kind"])
            what += " %s of %s" % (st["kind"], a.what)
        elif do == "empty":
            bad = empties(st["seed"])
            if bad:
                res.fail("not empty", "%s: %s" % (what, bad))
                return
        elif docs:
            i = int(st["doc"] * len(docs))
            doc, spec, origin, _ = docs[i]
            if do == "copy":
                if any(V.FIELDS[s["c"]][a].how == "k" for _, s in V.walk(spec) for a in s["f"]):
                    continue        # the points of a track (pygeoif) cannot be copied
                c = copy.deepcopy(doc) if st["how"] == "deepcopy" else pickle.loads(pickle.dumps(doc))  # noqa: S301
                docs.append([c, copy.deepcopy(spec), "%s in step %d" % (st["how"], n), [dict(x) for x in docs[i][3]]])
                what += " of the document from %s" % origin
            elif do == "change":
                if st["kind"] == "spaces":
                    ps = list(O.pairs(doc, spec))
                    k = int(st["at"] * len(ps))
                    ps[k][0].name_spaces["late%d" % n] = docs[i][3][k]["late%d" % n] = "{urn:late}"
                    how = "a name space more for %s" % ps[k][1]["c"]
                else:
                    how = CH.change(st, doc, spec)
                if how and st["kind"] == "spaces":
                    did += 1
                elif how:
                    docs[i][3] = [dict(o.name_spaces) for o, _ in O.pairs(doc, spec)]
                    did += 1
                what += " of the document from %s: %s" % (origin, how)
                res.probes["change " + st["kind"]] += how is not None
            else:
                dd = os.path.join(d, "d%d" % n)
                os.makedirs(dd)
                env = O.Env(dd, be)
                env.shared, env.shared_spec = doc, spec
                if do == "use":
                    op = st["op"]
                    ctx = O.OPS[op["op"]].prepare(op, env) if op["op"] != "eq" else None
                    if ctx is None:
                        doc == docs[0][0]  # noqa: B015
                    else:
                        out = O.execute(op, ctx, env)
                        if op["op"] in ("to_string", "write"):
                            bad = O.check(op, ctx, out, env, [])
                            if bad:
                                res.fail("content", "%s: %s of the document from %s: %s" % (what, op["op"], origin, bad))
                                return
                    what += " " + op["op"]
                else:
                    did += fail(st, env, doc, res)
                    what += " " + st["how"]
        else:
            continue
        res.probes[do] += 1
        for doc, spec, origin, nss in docs:
            bad = V.same(spec, V.summarize(doc))
            if bad:
                res.fail("changed", "%s changed the document from %s: %s" % (what, origin, bad))
                return
            now = [o.name_spaces for o, _ in O.pairs(doc, spec)]
            if now != nss:
                k = next(i for i, (a, b) in enumerate(zip(now, nss)) if a != b)
                res.fail("changed", "%s changed the name spaces of the document from %s: %s, now %s" % (what, origin, nss[k], now[k]))
                return
        bad = rt.changed_settings(start)
        if bad:
            res.fail("settings", "%s changed a setting of the process: %s" % (what, bad))
            return
        for a in kept:
            bad = a.problem()
            if bad:
                res.fail("argument", "%s: %s" % (what, bad))
                return
        res.note(n, what, rt.h([s for _, s, _, _ in docs]))
    bad = entangled(docs)
    if bad:
        res.fail("changed", bad)
        return
    for doc, spec, origin, _ in docs:
        text = doc.to_string()
        bad = V.diff_xml(V.tree(spec), text)
        if bad:
            res.fail("content", "XML of the document from %s: %s" % (origin, bad))
            return
    res.trivial = len(docs) < 2 or not did


def parts(doc):
    """The lists and the objects of the library that a document consists of, each with its place in it."""
    todo, seen = [(doc, "the document")], set()
    while todo:
        o, where = todo.pop()
        if isinstance(o, list):
            yield o, where
            todo += [(x, "%s[%d]" % (where, i)) for i, x in enumerate(o)]
        elif isinstance(o, tuple):
            todo += [(x, "%s[%d]" % (where, i)) for i, x in enumerate(o)]
        elif type(o).__module__.startswith("fastkml.") and hasattr(o, "__dict__") and not isinstance(o, enum.Enum):
            yield o, where
            if id(o) not in seen:
                seen.add(id(o))
                todo += [(v, "%s of a %s" % (k, type(o).__name__)) for k, v in vars(o).items() if not k.startswith("_")]


def entangled(docs):
    """An object that is part of the content in two places: does changing it in one place show in the other?"""
    at = {}
    for n, (doc, _, origin, _) in enumerate(docs):
        for o, where in parts(doc):
            at.setdefault(id(o), []).append((n, origin, where, o))
    for places in at.values():
        if len(places) < 2:
            continue
        (n, origin, where, o), (m, origin2, where2, _) = places[0], places[1]
        before = repr(docs[m][0])
        undo = meddle(o)
        if undo is None:
            continue
        after = repr(docs[m][0])
        undo()
        if before != after:
            return "a change in place of %s in the document from %s also changes %s of the document from %s" % (
                where, origin, where2, origin2)
    return None


def meddle(o):
    if isinstance(o, list):
        o.append("late")
        return o.pop
    for k, v in list(vars(o).items()):
        if not k.startswith("_"):
            try:
                setattr(o, k, "late")
            except Exception:  # noqa: BLE001
                return None
            return lambda: setattr(o, k, v)
    return None


def change_arg(a, kind):
    o = a.obj
    if isinstance(o, dict):
        if kind == "add":
            o["late"] = "{urn:late}"
        elif kind == "clear":
            o.clear()
        else:
            o.pop(next(iter(o), None), None)
    elif isinstance(o, list):
        if kind == "add":
            from fastkml.features import Placemark
            o.append(Placemark(name="late"))
        elif kind == "clear":
            o.clear()
        elif o:
            o.pop(0)
    else:
        return 0
    a.want = a.look()
    return 1


def empties(seed):
    """New objects have no content, whatever was put into earlier ones."""
    import random
    r = random.Random(seed)
    for cls in r.sample(sorted(V.CLASSES), 12):
        for _ in range(2):
            try:
                o = V.lib(cls)(**({"id": "s"} if cls == "Schema" else {}))
            except Exception:  # noqa: BLE001
                break
            if sorted(o.name_spaces) != ["atom", "gx", "kml"]:
                return "a new %s has the name spaces %s" % (cls, o.name_spaces)
            s = V.summarize(o)
            left = {k: v for k, v in s["f"].items()}
            if any(isinstance(v, (list, dict)) for v in left.values()):
                return "a new %s has %s" % (cls, V.short(left))
            for f in V.CLASSES[cls][4]:
                if f.how == "l" and isinstance(getattr(o, f.attr), list):
                    kids = [x for x in (f.node if isinstance(f.node, (list, tuple)) else ()) if x in V.CLASSES]
                    x = V.lib(kids[0])() if kids and not any(g.req for g in V.CLASSES[kids[0]][4]) and kids[0] not in ("Schema", "SchemaData") \
                        else object()
                    getattr(o, f.attr).append(x)
    return None


def fail(st, env, doc, res):
    """A call that fails; what it was working on must not matter afterwards."""
    how = st["how"]
    if how == "serialise":
        old = doc.name_spaces
        o = next((x for x in doc.features if hasattr(x, "name")), None)
        if o is None:
            return 0
        name = o.name
        o.name = "a\x00b"
        try:
            doc.to_string()
        except Exception:  # noqa: BLE001
            res.faults["serialise"] += 1
        o.name = name
        doc.name_spaces = old
        return 1
    op = st["op"]
    ctx = O.OPS[op["op"]].prepare(op, env)
    if how == "interrupt":
        def count():
            with inject.Injector(calls=True) as i:
                O.execute(op, ctx, env)
            return i.choose(st["at"])
        s, n = runner.fork_call(count)
        if s != "ok" or n is None:
            return 0
        i = inject.Injector(n, st["kind"], True)
        with i:
            try:
                O.OPS[op["op"]].run(op, ctx, env)
            except BaseException:  # noqa: BLE001, S110
                pass
        res.faults[st["kind"]] += i.exc is not None
        return 1
    out = O.execute(op, ctx, env)
    res.faults[how] += isinstance(out, O.Err)
    return 1


def size(case):
    return len(case["steps"])


def shrink(case):
    st = case["steps"]
    for size in (8, 4, 2, 1):
        for i in range(0, len(st), size):
            if len(st) > size:
                yield {**case, "steps": st[:i] + st[i + size:]}
    for i, s in enumerate(st):
        if s["do"] in ("build", "read"):
            for x in V.shrinks(s["spec"]):
                yield {**case, "steps": st[:i] + [{**s, "spec": x}] + st[i + 1:]}
            if s["ns"]:
                yield {**case, "steps": st[:i] + [{**s, "ns": False}] + st[i + 1:]}
