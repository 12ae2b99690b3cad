"""A document that cannot be serialised leaves the existing file untouched."""
import os
import pathlib

from sim import inject
from sim import ops as O
from sim import runner
from sim import runtime as rt
from sim import vocab as V
from sim.props import c03

ID = "C04"
LEVEL = "exploration"
WIDE = 0.01
RUNS = {"quick": 12000, "thorough": 200000}
RULE = ("a generated document is written over an existing (or absent) target while producing its XML is made to fail: an "
        "exception at a seeded function entry or return from a call in the serialisation code, in a seeded call of the XML back end, from a "
        "child list that fails while iterated, or through values that cannot be serialised or encoded planted at seeded "
        "elements; afterwards the cause is removed and the write repeated. Non-trivial: the write failed.")
DISTINCT = "hash of document, target, fault kind and place of the failure"
REAL = ["fastkml.kml.KML.write and all serialisation", "lxml / xml.etree", "zipfile", "kernel file system (scratch directory)"]
STUB = ["XML back end wrapper that raises in the n-th call (some runs)", "child lists that fail while iterated (some runs)"]
ASSUME = ["failures strike between Python lines and at returns from calls of the serialisation code or inside calls of the XML back end"]

KINDS = ("MemoryError", "KeyboardInterrupt", "RecursionError", "RuntimeError", "SimTimeout", "SimExit", "EIO", "ValueError")


def gen(r, tier):
    mode = r.choice(("point", "point", "etree", "etree", "iter", "value", "value"))
    return {"backend": r.choice(("lxml", "lxml", "et")), "spec": V.gen_kml(r, r.choice((0.05, 0.2, 0.5)), valid=False),
            "to": r.choice(("out.kml", "out.kmz", "out.xml", "out.KML", "out")), "prior": r.choice((None, "old", "long", "doc")),
            **O.out_opts(r), "mode": mode, "at": r.random(), "kind": r.choice(KINDS), "opcodes": r.random() < 0.3,
            "value": r.choice(("surrogate", "surrogate", "nul", "int", "object", "dims", "bytes", "badgeom")), "pick": r.random(),
            "where": r.choice(("list", "list", "text"))}


class Poisoned:
    """An XML back end whose n-th call fails."""

    def __init__(self, mod, at, kind):
        self.__dict__.update(_mod=mod, _at=at, _kind=kind, n=0, exc=None, where=None)

    def __getattr__(self, name):
        v = getattr(self._mod, name)
        if not callable(v) or isinstance(v, type) and issubclass(v, BaseException):
            return v

        def call(*a, **kw):
            d = self.__dict__
            k = d["n"]
            d["n"] += 1
            if k == d["_at"]:
                d["exc"] = rt.make_error(d["_kind"])
                d["where"] = "call %d (%s)" % (k, name)
                raise d["exc"]
            return v(*a, **kw)
        return call


PRODUCING = ("to_string", "etree_element")  # the public calls that produce the text


class FlakyList(list):
    """A list whose iteration fails after some items."""
    after, kind, exc, armed = 0, "RuntimeError", None, True

    def __iter__(self):
        for k, x in enumerate(list.__iter__(self)):
            if self.armed and k == self.after:
                self.exc = rt.make_error(self.kind)
                raise self.exc
            yield x
        if self.armed and self.exc is None and self.after >= len(self):
            self.exc = rt.make_error(self.kind)
            raise self.exc


def plant(case, doc, spec):
    """Put a value that cannot be serialised into the document; returns (undo, description)."""
    ps = list(O.pairs(doc, spec))
    v = case["value"]
    bad = {"surrogate": "caf\udce9", "nul": "a\x00b", "int": 5, "object": object(), "bytes": b"\xff\xfe"}.get(v)
    if v in ("dims", "badgeom"):
        ps = [p for p in ps if p[1]["c"] in ("Point", "LineString", "LinearRing")]
        if not ps:
            return None, None
        o, _ = ps[int(case["pick"] * len(ps))]
        kc = o.kml_coordinates
        old = kc.coords
        kc.coords = [(1.0,)] if v == "dims" else [("x", "y"), None]
        return (lambda: setattr(kc, "coords", old)), "coordinates of %s" % type(o).__name__
    cand = []
    for o, s in ps:
        for a in s["f"]:
            f = V.FIELDS[s["c"]][a]
            if f.how in "sat" and f.kind in ("text", "atext", "uri", "id"):
                cand.append((o, a))
    if not cand:
        return None, None
    o, a = cand[int(case["pick"] * len(cand))]
    old = getattr(o, a)
    try:
        setattr(o, a, bad)
    except Exception:  # noqa: BLE001
        return None, None
    return (lambda: setattr(o, a, old)), "%s.%s" % (type(o).__name__, a)


def plant_list(case, doc, spec):
    cand = []
    for o, s in O.pairs(doc, spec):
        for a in s["f"]:
            f = V.FIELDS[s["c"]][a]
            if f.how == "l" and isinstance(getattr(o, a), list):
                cand.append((o, a))
    if not cand:
        return None, None
    o, a = cand[int(case["pick"] * len(cand))]
    fl = FlakyList(getattr(o, a))
    fl.after, fl.kind = int(case["at"] * (len(fl) + 1)), case["kind"]
    setattr(o, a, fl)

    def undo():
        fl.armed = False
    return undo, fl


def run(case, d, res):
    from fastkml import config
    rt.set_backend(case["backend"])
    rt.shim.sim_clock(1, 1.7e9, 0.0)
    work = os.path.join(d, "w")
    os.makedirs(work)
    old = c03.prior_bytes({"prior": {case["to"]: case["prior"]}}, case["to"])
    target = os.path.join(work, case["to"])
    if old is not None:
        with open(target, "wb") as f:
            f.write(old)
    with open(os.path.join(work, "neighbour.kml"), "wb") as f:
        f.write(b"neighbour")
    before = c03.listing(work)
    doc, spec = V.build(case["spec"]), case["spec"]
    kw = O.kw_opts(case)
    undo = None
    inj = None
    if case["mode"] in ("point", "etree"):
        def count():
            p = pathlib.Path(d) / case["to"]
            if case["mode"] == "point":
                with inject.Injector(calls=not case["opcodes"], under=PRODUCING) as i:
                    doc.write(p, **kw)
                return i.choose(case["at"])
            px = Poisoned(config.etree, -1, None)
            config.set_etree_implementation(px)
            doc.write(p, **kw)
            return min(int(case["at"] * px.n), px.n - 1)
        st, at = runner.fork_call(count)
        if st != "ok":
            res.fail("healthy write", "%s %s" % (st, at))
            return
    exc = None
    real = config.etree
    what = case["mode"]
    try:
        if case["mode"] == "point":
            inj = inject.Injector(at, case["kind"], not case["opcodes"], under=PRODUCING)
            with inj:
                doc.write(pathlib.Path(target), **kw)
        elif case["mode"] == "etree":
            inj = Poisoned(real, at, case["kind"])
            config.set_etree_implementation(inj)
            doc.write(pathlib.Path(target), **kw)
        elif case["mode"] == "iter":
            undo, inj = plant_list(case, doc, spec)
            doc.write(pathlib.Path(target), **kw)
        else:
            undo, what = plant(case, doc, spec)
            doc.write(pathlib.Path(target), **kw)
    except BaseException as e:  # noqa: BLE001
        exc = e
    finally:
        config.set_etree_implementation(real)
    injected = inj.exc if inj is not None else None
    if case["mode"] != "value":
        what = "%s %s at %s" % (case["mode"], case["kind"], getattr(inj, "where", "an iteration"))
    else:
        what = "value %s in %s" % (case["value"], what)
    res.steps += 1
    res.note(what, type(exc).__name__, rt.h(spec), case["to"], case["prior"])
    res.trivial = exc is None
    if injected is not None and exc is None and getattr(inj, "unraisable", None) is None:
        res.fail("swallowed", "%s: the write returned normally" % what)
    if injected is not None and exc is not None and not any(x is injected for x in inject.chain(exc)):
        res.fail("other error", "%s: the caller got %s: %s" % (what, type(exc).__name__, exc))
    if exc is not None and injected is None and case["mode"] != "value":
        res.fail("spurious error", "%s: raised %s: %s without a fault" % (what, type(exc).__name__, exc))
    if exc is not None:
        res.faults["%s %s" % (case["mode"], case["value"] if case["mode"] == "value" else case["kind"])] += 1
        exc = injected = None
        now = c03.listing(work)
        if now != before:
            for n in sorted(set(now) | set(before)):
                if now.get(n) != before.get(n):
                    res.fail("destroyed", "%s: %s was %s bytes, is now %s" % (
                        what, n, "absent/" if n not in before else len(before[n]), len(now[n]) if n in now else "absent"))
    else:
        if case["mode"] == "value" and case["value"] == "surrogate" and undo:
            res.fail("no error", "%s: text that cannot be encoded was written as %s" % (
                what, V.short(repr(c03.view(target)))))
        now = c03.listing(work)
        now.pop(case["to"], None)
        before.pop(case["to"], None)
        if now != before:
            res.fail("destroyed", "%s: the neighbours changed" % what)
    # remove the cause: the same write works
    if undo:
        undo()
    try:
        doc.write(pathlib.Path(target), **kw)
    except Exception as e:  # noqa: BLE001
        res.fail("no recovery", "%s: the retry raised %s: %s" % (what, type(e).__name__, e))
        return
    kind, data = c03.view(target)
    if kind != "text":
        res.fail("no recovery", "%s: after the retry the file is %s" % (what, kind))
        return
    bad = V.diff_xml(V.tree(spec, case["prec"], case["verb"]), data.decode("utf-8"))
    if bad:
        res.fail("no recovery", "%s: after the retry: %s" % (what, bad))


def shrink(case):
    for s in V.shrinks(case["spec"]):
        yield {**case, "spec": s}
    for k, v in (("prec", None), ("verb", "normal"), ("pp", False), ("prior", "old"), ("opcodes", False), ("at", 0.0), ("pick", 0.0)):
        if case[k] != v:
            yield {**case, k: v}
