"""Validation verdicts and error reports."""
import copy
import errno
import os
import pathlib
import shutil

from sim import conc
from sim import inject
from sim import ops as O
from sim import runner
from sim import runtime as rt
from sim import sched as S
from sim import vocab as V

ID = "C11"
LEVEL = "exploration"
DEEP = 0.01
RUNS = {"quick": 2400, "thorough": 60000}
RULE = ("1 to 4 simulated threads validate generated documents (valid ones, and invalid ones whose errors carry a mark of the "
        "document) as object, element (also of ElementTree, or inside a larger document), file or while reading, against the bundled schema, copies of it, a schema that accepts "
        "everything and one that accepts nothing; they also clear the schema cache, make schema files unreadable (missing, cut "
        "off, open failing at the first to fourth file, for once or until repaired, some from before the first use on) and repair "
        "them, validate torn files, and get interrupted; "
        "preempted at line or call granularity. Verdict, message and log of every call are compared with the same call "
        "alone in a process of its own and with the known validity. Non-trivial: a preemption inside a call, or a fault.")
DISTINCT = "hash of the complete sequence of (thread, step within the thread, next thread) and of all outcomes"
REAL = ["fastkml (all modules)", "lxml XMLSchema", "schema files (bundled, and copies in a scratch directory)"]
STUB = ["thread scheduler", "threading.Lock / RLock", "failing open() of schema files", "logging handler",
        "the source of interruptions"]
ASSUME = ["a thread can only be preempted between Python lines and at returns from calls of the library; one validation inside lxml is one "
          "step"]
ALL = ('<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="%s"><xs:element name="kml"><xs:complexType>'
       '<xs:sequence><xs:any processContents="skip" minOccurs="0" maxOccurs="unbounded"/></xs:sequence>'
       '<xs:anyAttribute processContents="skip"/></xs:complexType></xs:element></xs:schema>') % V.KML
NONE = ('<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:nothing"><xs:element name="nothing"/>'
        '</xs:schema>')
MODES = ("missing", "import", "cut", "EMFILE", "EACCES", "EIO")


def gen(r, tier):
    n = r.choice((1, 2, 2, 3, 4))
    schemas = r.choice(((0,), (0,), (0, 1), (0, 3, 4), (0, 1, 2, 3, 4)))
    faulty = r.random() < 0.4

    def val():
        mark = r.randint(1000, 99999)
        valid = r.random() < 0.4
        spec = V.gen_kml(r, O.dense(r))
        how = r.choice(("object", "element", "file", "parse"))
        marks = [] if valid else [mark] if r.random() < 0.6 else [mark + 100000 * k for k in range(1, r.choice((3, 4, 6)))]
        if not valid:
            spec, marks = harm(spec, r, marks)
        strict, validate = r.choice(((True, None), (True, True), (False, True), (True, None), (False, None), (True, False)))
        torn = r.choice((r.random(), r.random(), 0, None)) if how == "file" and r.random() < 0.12 else 1
        return {"do": "val", "torn": torn, "how": how, "schema": 0 if how in ("object", "parse") else r.choice(schemas), "mark": marks,
                "valid": valid, "spec": spec, "strict": strict, "validate": validate, "reuse": r.random() < 0.3,
                "host": r.choice((None, None, None, "tree", "inside", "inside")),
                "hit": [r.random(), r.choice(("KeyboardInterrupt", "MemoryError", "SimTimeout"))] if r.random() < 0.06 else None}

    def act():
        k = r.random()
        if k < 0.1:
            return {"do": "clear"}
        if faulty and k < 0.25:
            s = r.choice(schemas)
            return {"do": "break", "schema": s, "mode": r.choice(("missing", "cut", "EMFILE") if s > 2 else MODES if s else MODES[3:]),
                    "nth": r.randrange(4) if s < 3 else r.choice((0, 0, 3)),
                    "once": r.random() < 0.5, "clear": r.random() < 0.6}
        if faulty and k < 0.35:
            return {"do": "repair"}
        return val()

    def early():
        """A schema that is away or cut off before it is used for the first time."""
        s = r.choice([x for x in schemas if x])
        a = {**val(), "how": r.choice(("element", "file")), "torn": 1, "schema": s}
        return [{"do": "break", "schema": s, "mode": r.choice(("missing", "cut")), "nth": r.randrange(4), "once": False, "clear": False},
                a, {"do": "repair"}, {**a, "hit": None}]
    threads = [[act() for _ in range(r.choice((1, 1, 2, 4)))] for _ in range(n)]
    if faulty and len(schemas) > 1 and r.random() < 0.4:
        threads[0] = early()[:r.choice((2, 4))]
    return {"gran": "fine" if r.random() < 0.25 else "line", "warm": r.random() < 0.4,
            "threads": threads,
            "final": [val() for _ in range(r.choice((0, 1, 2)))],
            "sched": S.gen_policy(r, int(10 ** r.uniform(1, 3.5)))}


def harm(spec, r, marks):
    """An invalid variant with one error per mark, as far as there are features to carry them."""
    s = copy.deepcopy(spec)
    feats = [x for _, x in V.walk(s) if x["c"] in V.FEATURE_CLASSES]
    r.shuffle(feats)
    done = []
    for x, m in zip(feats, marks):
        if r.random() < 0.25:
            x["f"]["id"] = "%d" % m  # not a name; the context of this error is the whole parent
        else:
            O.injure(x, r, m)
        done.append(m)
    return s, done


class World:
    """Schema files, and what is broken about them."""

    def __init__(self, d):
        self.d = d
        self.home = os.path.join(rt.LIB, "schema")
        for i in (1, 2):
            shutil.copytree(self.home, os.path.join(d, "schema%d" % i))
        for i, t in ((3, ALL), (4, NONE)):
            os.mkdir(os.path.join(d, "schema%d" % i))
            with open(self.path(i), "w", encoding="utf-8") as f:
                f.write(t)
        self.broken = {}   # schema -> (mode)
        self.spans = []    # [schema, start, end or None]
        self.armed = None

    def path(self, i):
        if i == 0:
            return None
        return pathlib.Path(self.d) / ("schema%d" % i) / "ogckml22.xsd"

    def harm(self, a, now, res):
        i, mode = a["schema"], a["mode"]
        if i in self.broken:
            return
        root = self.home if i == 0 else os.path.join(self.d, "schema%d" % i)
        if mode in ("missing", "import", "cut"):
            f = os.path.join(root, "ogckml22.xsd" if mode != "import" else ("xAL.xsd", "kml22gx.xsd", "atom-author-link.xsd")[a["nth"] % 3])
            os.rename(f, f + ".away")
            if mode == "cut":
                with open(f + ".away", "rb") as g:
                    b = g.read()
                with open(f, "wb") as g:
                    g.write(b[:len(b) * (a["nth"] + 1) // 5])
            self.broken[i] = f
        else:
            if self.armed is not None:
                return
            rt.arm(root, [{"on": "open", "nth": a["nth"], "act": "fail", "err": getattr(errno, mode),
                           "count": 1 if a["once"] else 10 ** 6}])
            self.armed = i
            self.broken[i] = None
        self.spans.append([i, now, None, self.broken[i] is not None])
        res.faults["schema " + mode] += 1

    def repair(self, now):
        for i, f in self.broken.items():
            if f is None:
                rt.disarm()
                self.armed = None
            else:
                os.replace(f + ".away", f)
        for s in self.spans:
            if s[2] is None:
                s[2] = now
        self.broken = {}

    def unreadable(self, i, e, hist):
        """The file was away or cut off from before the first use of this schema until the call had ended."""
        first = min(x["start"] for x in hist if x["a"]["do"] == "val" and x["a"]["schema"] == i)
        return i > 0 and any(s[0] == i and s[3] and s[1] < first and (s[2] is None or s[2] > e["end"]) for s in self.spans)

    def was_broken(self, i, a, b):
        return any(s[0] == i and s[1] <= b and (s[2] is None or s[2] >= a) for s in self.spans)


def prepare(a, dir_, k):
    ctx = {"doc": V.build(a["spec"])}
    if a["how"] in ("file", "parse"):
        ctx["path"] = pathlib.Path(dir_) / ("v%d.kml" % k)
        store(a, ctx["path"])
    return ctx


def store(a, path):
    """The document; torn: cut off inside the root element (0: empty, None: no file)."""
    b = V.render(a["spec"]).encode("utf-8")
    if a.get("torn", 1) != 1:
        if a["torn"] is None:
            path.unlink(missing_ok=True)
            return
        b = b[:int(a["torn"] * (b.rindex(b"<") if b.rstrip().endswith(b"</kml>") else b.index(b"<kml") + 4))]
    path.write_bytes(b)


def perform(a, ctx, w):
    from fastkml import KML
    from fastkml import validator
    s = w.path(a["schema"])
    if a["how"] == "parse":
        return KML.parse(ctx["path"], strict=a["strict"], validate=a["validate"])
    if a["how"] == "file":
        return validator.validate(schema=s, file_to_validate=ctx["path"])
    if a["how"] == "object":
        return ctx["doc"].validate()
    return validator.validate(schema=s, element=host(ctx["doc"].etree_element(), a.get("host")))


def host(element, how):
    """The element as it is, as a tree, or as a part of a larger document."""
    from fastkml import config
    if how == "tree":
        return config.etree.ElementTree(element)
    if how == "inside":
        root = config.etree.fromstring('<w:x xmlns:w="urn:w"><w:y/><kml xmlns="%s"><Folder><visibility>many</visibility></Folder></kml>'
                                       'text</w:x>' % V.KML)
        element.tail = "tail"
        root[0].append(element)
    return element


def outcome(fn):
    try:
        v = fn()
    except BaseException as e:  # noqa: BLE001
        return O.Err(e)
    return O.Ok(v)


def digest(a, out, logs):
    if isinstance(out, O.Err):
        return ["E", type(out.exc).__name__, str(out.exc) if a.get("torn", 1) == 1 else "", [list(x) for x in logs]]
    if a["how"] == "parse":
        return ["V", repr(V.summarize(out.value)), "", [list(x) for x in logs]]
    return ["V", repr(out.value), "", [list(x) for x in logs]]


def wrong(a, out, logs):
    """Problem with the outcome, given what is known about the document."""
    off = a["how"] == "parse" and not a["validate"] and not (a["strict"] and a["validate"] is None)
    ok = True if off else {0: a["valid"], 1: a["valid"], 2: a["valid"], 3: True, 4: False}[a["schema"]]
    errs = [t for lv, t in logs if lv == "ERROR"]
    if a.get("torn", 1) != 1:
        return None if isinstance(out, O.Err) else "a file that is cut off or missing: answered %r" % (out.value,)
    if ok:
        if isinstance(out, O.Err):
            return "valid document: %s: %s" % (type(out.exc).__name__, out.exc)
        if errs:
            return "valid document: logged %r" % errs[0][:200]
        if a["how"] == "parse":
            return V.same(a["spec"], V.summarize(out.value))
        return None if out.value is True else "valid document: answered %r" % (out.value,)
    if isinstance(out, O.Ok):
        return "invalid document (marks %s): answered %r" % (a["mark"], out.value)
    if not isinstance(out.exc, AssertionError):
        return "invalid document: raised %s: %s" % (type(out.exc).__name__, out.exc)
    if not errs:
        return "invalid document: no schema error was logged"
    marks = [str(m) for m in a["mark"]]
    if a["schema"] != 4:
        if not any(m in str(out.exc) for m in marks):
            return "the error raised is not about mark %s: %s" % (marks, out.exc)
        for t in errs:
            if not any(m in t.split("in XML:")[0] for m in marks):
                return "a logged error is not about mark %s: %s" % (marks, t[:300])
            if not any(m in t.split("in XML:")[-1] for m in marks):
                return "the context of a logged error is not that of mark %s: %s" % (marks, t[:300])
        for m in marks:
            if not any(m in t.split("in XML:")[0] for t in errs):
                return "the error of mark %s was not logged" % m
    for t in errs:
        if "in XML:" in t and "<" not in t.split("in XML:", 1)[1]:
            return "a logged error has no XML context: %s" % t[:300]
    return None


def solo(a, d, w, k):
    def body():
        dd = os.path.join(d, "solo%d" % k)
        os.makedirs(dd)
        rt.set_backend("lxml")
        ctx = prepare(a, dd, k)
        rt.cap.clear()
        out = outcome(lambda: perform(a, ctx, w))
        with inject.Injector(calls=True) as i:
            outcome(lambda: perform(a, ctx, w))
        logs = list(rt.cap.of())
        return [digest(a, out, logs[:len(logs) // 2]), wrong(a, out, logs[:len(logs) // 2]), i.n]
    st, v = runner.fork_call(body)
    return v if st == "ok" else [["%s" % st], "alone: %s %s" % (st, v), 0]


def run(case, d, res):
    from fastkml import validator
    rt.set_backend("lxml")
    w = World(d)
    ref = {}
    for k, t in enumerate(case["threads"] + [case["final"]]):
        for j, a in enumerate(t):
            if a["do"] == "val":
                ref[k, j] = solo(a, d, w, 100 * k + j)
                if ref[k, j][1]:
                    res.fail("wrong alone", "%s: %s" % (describe(a), ref[k, j][1]))
    if res.violations:
        return
    if case["warm"]:
        validator.get_schema_parser()
    clock = [0]
    hist = []
    ctxs = {}
    for k, t in enumerate(case["threads"] + [case["final"]]):
        for j, a in enumerate(t):
            if a["do"] == "val":
                ctxs[k, j] = prepare(a, d, 1000 + 100 * k + j)

    def tick():
        clock[0] += 1
        return clock[0]

    def clear():
        validator.get_schema_parser.cache_clear()

    def act(k, j, a, tid):
        e = {"k": k, "j": j, "a": a, "start": tick(), "inj": None}
        if a["do"] == "clear":
            clear()
        elif a["do"] == "break":
            if a["clear"]:
                clear()
            w.harm(a, clock[0], res)
        elif a["do"] == "repair":
            w.repair(clock[0])
        else:
            if a.get("reuse") and "path" in ctxs[k, j]:  # one file, rewritten for every validation of this thread
                ctxs[k, j]["path"] = pathlib.Path(d) / ("again%d.kml" % k)
                store(a, ctxs[k, j]["path"])
            n = len(rt.cap.of(tid))
            if a["hit"] and ref[k, j][2]:
                e["inj"] = inject.Injector(int(a["hit"][0] * ref[k, j][2]), a["hit"][1], True)
                with e["inj"]:
                    e["out"] = outcome(lambda: perform(a, ctxs[k, j], w))
            else:
                e["out"] = outcome(lambda: perform(a, ctxs[k, j], w))
            e["logs"] = rt.cap.of(tid)[n:]
        e["end"] = tick()
        hist.append(e)

    def body(k, t):
        def go():
            for j, a in enumerate(t):
                act(k, j, a, S.me().id)
        return go
    rt.cap.clear()
    s = conc.simulate([body(k, t) for k, t in enumerate(case["threads"])], case, inject=any(a.get("hit") for t in case["threads"] for a in t))
    conc.finish(s, res)
    w.repair(tick())
    rt.cap.clear()
    if not s.failure:
        for j, a in enumerate(case["final"]):
            act(len(case["threads"]), j, {**a, "hit": None}, None)
    res.trivial = s.switches <= len(case["threads"]) and not res.faults
    for e in hist:
        a = e["a"]
        if a["do"] != "val":
            continue
        out, logs = e["out"], e["logs"]
        res.probes["%s %s" % (a["how"], "torn" if a.get("torn", 1) != 1 else "valid" if a["valid"] else "invalid")] += 1
        dig = digest(a, out, logs)
        res.note(e["k"], e["j"], rt.h(dig))
        what = "%s in thread %d" % (describe(a), e["k"])
        if e["inj"] is not None and e["inj"].exc is not None:
            res.faults[a["hit"][1]] += 1
            if isinstance(out, O.Ok) or not any(x is e["inj"].exc for x in inject.chain(out.exc)):
                res.fail("swallowed", "%s: the interruption did not reach the caller" % what)
            continue
        bad = wrong(a, out, logs)
        if w.unreadable(a["schema"], e, hist):
            res.probes["unreadable from the start"] += 1
            if isinstance(out, O.Ok) or isinstance(out.exc, AssertionError):
                res.fail("ignored", "%s: the schema could not be read, but the verdict was %s" % (what, V.short(dig)))
            continue
        if bad and w.was_broken(a["schema"], e["start"], e["end"]) and isinstance(out, O.Err) and \
                not isinstance(out.exc, AssertionError):
            res.probes["refused, schema unreadable"] += 1
            continue
        if bad:
            res.fail("wrong", "%s: %s" % (what, bad))
        elif a.get("torn", 1) == 1 and dig != ref[e["k"], e["j"]][0]:
            res.fail("differs", "%s: alone %s, here %s" % (what, V.short(ref[e["k"], e["j"]][0]), V.short(dig)))
        if a["how"] in ("object", "element"):
            bad = V.same(a["spec"], V.summarize(ctxs[e["k"], e["j"]]["doc"]))
            if bad:
                res.fail("changed", "%s changed the document: %s" % (what, bad))


def describe(a):
    return "validation as %s against schema %d of a%s document" % (a["how"], a["schema"], " valid" if a["valid"] else "n invalid")


def size(case):
    return sum(len(t) for t in case["threads"])


def shrink(case):
    ths = case["threads"]
    for i in range(len(case["final"])):
        yield {**case, "final": case["final"][:i] + case["final"][i + 1:]}
    for k in range(len(ths)):
        if len(ths) > 1:
            yield {**case, "threads": ths[:k] + ths[k + 1:], "sched": conc.drop_thread(case["sched"], k)}
    for k in range(len(ths)):
        for j, a in enumerate(ths[k]):
            if len(ths[k]) > 1:
                yield {**case, "threads": ths[:k] + [ths[k][:j] + ths[k][j + 1:]] + ths[k + 1:]}
            if a.get("hit"):
                yield {**case, "threads": ths[:k] + [ths[k][:j] + [{**a, "hit": None}] + ths[k][j + 1:]] + ths[k + 1:]}
            if a["do"] == "val" and a["valid"]:
                for s in V.shrinks(a["spec"]):
                    yield {**case, "threads": ths[:k] + [ths[k][:j] + [{**a, "spec": s}] + ths[k][j + 1:]] + ths[k + 1:]}
