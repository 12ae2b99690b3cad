"""Interleaved lazy searches."""
import copy
import random
from collections import Counter

from sim import change as CH
from sim import conc
from sim import inject
from sim import ops as O
from sim import runtime as rt
from sim import sched as S
from sim import vocab as V

ID = "C14"
LEVEL = "exploration"
DEEP = 0.01
VOID = (0, 0, 0.5)
WIDE = 0.02
RUNS = {"quick": 3600, "thorough": 120000}
RULE = ("1 to 3 documents (built or read) and 1 to 4 threads, each executing a script over lazy searches: opening one from the "
        "document or from an object in it, stepping, abandoning, exhausting, interrupting one inside a step, searching inside "
        "the loop over another one, the find-first form, style look-up. Some searches are opened before the threads start and "
        "continued by one of them, and some are exhausted after all threads ended. Then, up to three times, "
        "documents are changed (values, children, ids) and searched again. Types, tuples of types, attribute values and "
        "unset attributes as filters. Non-trivial: at least two searches were open at the same time, or two threads switched.")
DISTINCT = "hash of the schedule and of everything the searches gave"
REAL = ["fastkml (all modules)", "lxml / xml.etree", "pygeoif"]
STUB = ["thread scheduler (more than one thread)", "the source of interruptions"]
ASSUME = ["documents are not changed while a search runs", "one search is stepped by one thread at a time"]
KINDS = ("KeyboardInterrupt", "MemoryError", "SimTimeout")
UNSET = ("name", "visibility", "isopen", "description", "phone_number", "address")


def query(r, spec):
    k = r.random()
    if k < 0.05:
        return {"types": None, "attrs": {}}
    if k < 0.11:
        return {"leaf": r.choice(("KmlDateTime", "TrackItem", "Angle", "AltitudeMode", "ColorMode", "dates and items")), "types": None, "attrs": {}}
    q = O.find_query(r, spec)
    if k < 0.2:
        cands = [s for _, s in V.walk(spec) if s["c"] in ("Placemark", "Folder", "Document", "GroundOverlay", "ScreenOverlay")]
        if cands:
            s = r.choice(cands)
            q = {"types": r.choice(([s["c"]], None, [s["c"], "Style"])), "attrs": {a: s["f"].get(a) for a in r.sample(UNSET, r.choice((1, 2)))}}
    return q


def gen(r, tier):
    docs = []
    for _ in range(r.choice((1, 1, 2, 3))):
        spec = V.gen_kml(r, O.dense(r), valid=False)
        origin = "build" if any(s["c"] == "NetworkLinkControl" or s.get("void") for _, s in V.walk(spec)) else r.choice(("build", "string"))
        docs.append({"spec": spec, "origin": origin})

    def search():
        d = r.randrange(len(docs))
        return {"doc": d, "at": r.choice((0, 0, 0, r.random())), "q": query(r, docs[d]["spec"])}

    def script():
        out = []
        for _ in range(r.choice((2, 5, 10, 20)) if n > 1 else r.choice((2, 5, 10))):
            k = r.random()
            if k < 0.25 or not out:
                out.append({"do": "open", "s": search()})
            elif k < 0.60:
                out.append({"do": "step", "k": r.random(), "n": r.choice((1, 1, 2, 5))})
            elif k < 0.67:
                out.append({"do": "close", "k": r.random(), "how": r.choice(("close", "forget"))})
            elif k < 0.74:
                out.append({"do": "exhaust", "k": r.random()})
            elif k < 0.80:
                out.append({"do": "nested", "a": search(), "b": search()})
            elif k < 0.88:
                out.append({"do": "first", "s": search()})
            elif k < 0.94:
                out.append({"do": "style", "doc": r.randrange(len(docs)), "at": r.random(), "pre": r.choice(("", "doc.kml", "http://h/a?b=c"))})
            else:
                out.append({"do": "interrupt", "k": r.random(), "at": r.random(), "kind": r.choice(KINDS)})
        return out
    n = r.choice((1, 1, 2, 3, 4)) if sum(1 for x in docs for _ in V.walk(x["spec"])) < 400 else 1
    case = {"backend": r.choice(("lxml", "et")), "docs": docs, "early": [search() for _ in range(r.choice((0, 0, 1, 3)))],
            "threads": [script() for _ in range(n)]}
    if n > 1:
        case["gran"] = "fine" if r.random() < 0.2 else "line"
        case["sched"] = S.gen_policy(r, int(10 ** r.uniform(2, 4)))
    case["rounds"] = [{"changes": [{"doc": r.randrange(len(docs)), "at": r.random(), "seed": r.randrange(10 ** 9),
                                    "kind": r.choice(CH.KINDS + ("styles", "styles"))} for _ in range(r.choice((1, 2, 4)))],
                       "script": [late(r, len(docs)) for _ in range(r.choice((2, 5, 8)))]} for _ in range(r.choice((0, 1, 1, 3)))]
    return case


def late(r, n):
    s = {"doc": r.randrange(n), "at": r.choice((0, 0, r.random())), "qseed": r.randrange(10 ** 9)}
    k = r.random()
    if k < 0.3:
        return {"do": "open", "s": s}
    if k < 0.45:
        return {"do": "step", "k": r.random(), "n": r.choice((1, 2, 5))}
    if k < 0.65:
        return {"do": "first", "s": s}
    return {"do": "style", "doc": s["doc"], "at": r.random(), "pre": ""}


def at(doc, spec, x):
    ps = list(O.pairs(doc, spec))
    return ps[int(x * len(ps))]


def asked(s, spec):
    """The query: fixed, or made for the present content of the document."""
    return s["q"] if "q" in s else query(random.Random(s["qseed"]), spec)


def change(ch, doc, spec):
    if ch["kind"] != "styles":
        return CH.change(ch, doc, spec)
    r = random.Random(ch["seed"])
    conts = [(o, s) for o, s in O.pairs(doc, spec) if s["c"] == "Document" and s["f"].get("styles")]
    if not conts:
        return None
    o, s = conts[int(ch["at"] * len(conts))]
    k = r.randrange(len(s["f"]["styles"]))
    how = r.choice(("drop", "first", "swap"))
    if how == "drop":
        o.styles.pop(k)
        s["f"]["styles"] = s["f"]["styles"][:k] + s["f"]["styles"][k + 1:]
        if not s["f"]["styles"]:
            del s["f"]["styles"]
    elif how == "first":
        new = {"c": "Style", "f": {"id": s["f"]["styles"][k]["f"].get("id", "s1")}}
        o.styles.insert(0, V.build(new))
        s["f"]["styles"] = [new] + s["f"]["styles"]
    else:
        o.styles.reverse()
        s["f"]["styles"] = s["f"]["styles"][::-1]
    return how


def leaf_type(name):
    from fastkml import enums
    from fastkml import gx
    from fastkml import times
    return {"KmlDateTime": times.KmlDateTime, "TrackItem": gx.TrackItem, "Angle": gx.Angle, "AltitudeMode": enums.AltitudeMode,
            "ColorMode": enums.ColorMode, "dates and items": (times.KmlDateTime, gx.TrackItem)}[name]


def leaves(root, spec, t):
    """The values of a type that the objects of a document hold."""
    from fastkml import gx
    out = []
    for o, _ in O.pairs(root, spec):
        for k, v in vars(o).items():
            if not k.startswith("_"):
                for x in v if isinstance(v, (list, tuple)) else [v]:
                    out += [y for y in ((x, x.when, x.angle) if isinstance(x, gx.TrackItem) else (x,)) if isinstance(y, t)]
    return out


def kwargs(q):
    return {"of_type": leaf_type(q["leaf"])} if "leaf" in q else O.find_kwargs(q)


class Search:
    """A lazy search and what it gave so far."""

    def __init__(self, root, spec, q):
        from fastkml import utils
        self.root, self.spec, self.q = root, spec, q
        self.got, self.ended, self.broken = [], False, None
        self.it = iter(utils.find_all(root, **kwargs(q)))

    def step(self):
        if self.it is None or self.ended:
            return
        try:
            self.got.append(next(self.it))
        except StopIteration:
            self.ended = True

    def exhaust(self, limit=200000):
        while self.it is not None and not self.ended:
            self.step()
            if len(self.got) > limit:
                self.broken = "does not end"
                self.it = None

    def problem(self):
        if self.broken:
            return self.broken
        if "leaf" in self.q:
            want = leaves(self.root, self.spec, leaf_type(self.q["leaf"]))
            a, b = Counter(map(id, want)), Counter(map(id, self.got))
            if b - a:
                return "a %s was given too often" % next(type(x).__name__ for x in self.got if b[id(x)] > a[id(x)])
            return "%d of %d were given" % (len(self.got), len(want)) if self.ended and a != b else self.gap()
        if self.q["types"] is None and not self.q["attrs"]:
            # everything: only the objects of the document are compared
            known = {id(o): o for o, s in O.pairs(self.root, self.spec)}
            g = [o for o in self.got if id(o) in known]
            if len({id(o) for o in g}) != len(g):
                return "an object was given twice"
            if self.ended and len(g) != len(known):
                return "%d of %d objects were given" % (len(g), len(known))
            return O.order_problem(self.root, self.spec, {id(o): i for i, o in enumerate(g)})
        return O.find_check(self.root, self.spec, self.q, self.got, complete=self.ended) or self.gap()

    def gap(self):
        """What an unfinished search gave is a prefix of what a finished one gives."""
        from fastkml import utils
        if self.ended or not self.got:
            return None
        full = list(utils.find_all(self.root, **kwargs(self.q)))[:len(self.got)]
        if [id(x) for x in full] != [id(x) for x in self.got]:
            return "an unfinished search left out matches or changed their order"
        return None


class Actor:
    def __init__(self, docs, script, early, res):
        self.docs, self.script, self.res = docs, script, res
        self.open = list(early)
        self.all = list(early)
        self.bad = []
        self.most = len(early)

    def new(self, s):
        doc, spec = self.docs[s["doc"]]
        x = Search(*at(doc, spec, s["at"]), asked(s, spec))
        self.all.append(x)
        return x

    def pick(self, st):
        live = [s for s in self.open if s.it is not None and not s.ended]
        return live[int(st["k"] * len(live))] if live else None

    def body(self):
        for st in self.script:
            self.act(st)
            self.most = max(self.most, sum(s.it is not None and not s.ended for s in self.open))

    def act(self, st):
        from fastkml import utils
        do = st["do"]
        self.res.probes[do] += 1
        if do == "open":
            self.open.append(self.new(st["s"]))
        elif do == "first":
            doc, spec = self.docs[st["s"]["doc"]]
            o, s = at(doc, spec, st["s"]["at"])
            q = asked(st["s"], spec)
            if "leaf" in q:
                self.bad.append((first_leaf, o, s, q, utils.find(o, **kwargs(q))))
                return
            if q["types"] is None and not q["attrs"]:
                return
            self.bad.append((first_problem, o, s, q, utils.find(o, **O.find_kwargs(q))))
        elif do == "style":
            doc, spec = self.docs[st["doc"]]
            conts = [(o, s) for o, s in O.pairs(doc, spec) if s["c"] == "Document"]
            if not conts:
                return
            o, s = conts[int(st["at"] * len(conts))]
            ids = [x["f"]["id"] for _, x in V.walk(s) if x["c"] in ("Style", "StyleMap") and x["f"].get("id")] + ["nosuchid"]
            i = ids[int(st["at"] * 7919 * len(ids)) % len(ids)]
            self.bad.append((first_problem, o, s, {"types": ["Style", "StyleMap"], "attrs": {"id": i}},
                             o.get_style_by_url(st["pre"] + "#" + i)))
        elif do == "nested":
            a = self.new(st["a"])
            while not a.ended and len(a.got) < 8:
                a.step()
                if not a.ended:
                    self.new(st["b"]).exhaust()
            self.most = max(self.most, 2)
        else:
            x = self.pick(st)
            if x is None:
                return
            if do == "step":
                for _ in range(st["n"]):
                    x.step()
            elif do == "exhaust":
                x.exhaust()
            elif do == "close":
                if st["how"] == "close" and hasattr(x.it, "close"):
                    x.it.close()
                x.it = None
            else:
                i = inject.Injector(int(st["at"] * st["at"] * 60), st["kind"], True)
                try:
                    with i:
                        x.step()
                except BaseException as e:  # noqa: BLE001
                    if e is not i.exc:
                        x.broken = "stepping raised %s: %s" % (type(e).__name__, e)
                    self.res.faults[st["kind"]] += 1
                    x.it = None


def first_leaf(o, s, q, got):
    from fastkml import utils
    want = leaves(o, s, leaf_type(q["leaf"]))
    if got is None:
        return "the first %s was not found" % q["leaf"] if want else None
    if not any(x is got for x in want) or got is not next(iter(utils.find_all(o, **kwargs(q)))):
        return "find-first did not give the first %s" % q["leaf"]
    return None


def first_problem(o, s, q, got):
    from fastkml import utils
    exp = O.find_expected(o, s, q)
    if got is None:
        return "the first match of %r was not found" % (q,) if exp else None
    if not any(got is x for x in exp):
        return "find-first gave a %s that does not match %r" % (type(got).__name__, q)
    if got is not next(iter(utils.find_all(o, **O.find_kwargs(q))), None):
        return "find-first did not give the first match of %r" % (q,)
    return None


def make(case):
    from fastkml import KML
    out = []
    for x in case["docs"]:
        if x["origin"] == "build":
            out.append((V.build(x["spec"]), copy.deepcopy(x["spec"])))
        else:
            doc = KML.from_string(V.render(x["spec"]))
            out.append((doc, copy.deepcopy(V.regroup(x["spec"], V.summarize(doc)))))
    return out


def run(case, d, res):
    rt.set_backend(case["backend"])
    docs = make(case)
    if act(case, docs, res):
        return
    for rd in case.get("rounds", ()):
        done = [change(ch, *docs[ch["doc"]]) for ch in rd["changes"]]
        res.probes["change"] += sum(x is not None for x in done)
        res.note(done)
        a = Actor(docs, rd["script"], [], res)
        try:
            a.body()
        except Exception as e:  # noqa: BLE001
            res.fail("raised", "a search after a change raised %s: %s" % (type(e).__name__, e))
            return
        if judge([a], docs, res, "after a change, "):
            return


def act(case, docs, res):
    n = len(case["threads"])
    early = []
    for s in case["early"]:
        x = Search(*at(*docs[s["doc"]], s["at"]), s["q"])
        x.step()
        early.append(x)
    actors = [Actor(docs, t, early[k::n], res) for k, t in enumerate(case["threads"])]
    if n > 1:
        s = conc.simulate([a.body for a in actors], case, inject=True)
        conc.finish(s, res)
        res.trivial = s.switches <= n
    else:
        try:
            actors[0].body()
        except Exception as e:  # noqa: BLE001
            res.fail("raised", "a search raised %s: %s" % (type(e).__name__, e))
            return True
        res.steps += len(case["threads"][0])
        res.trivial = actors[0].most < 2
    return judge(actors, docs, res)


def judge(actors, docs, res, when=""):
    for k, a in enumerate(actors):
        for j, x in enumerate(a.all):
            try:
                if j % 2:
                    x.exhaust()
                bad = x.problem()
            except Exception as e:  # noqa: BLE001
                bad = "continuing it raised %s: %s" % (type(e).__name__, e)
            res.note(k, j, [type(o).__name__ for o in x.got], x.ended, bad)
            res.steps += len(x.got)
            res.probes["matches"] += len(x.got)
            if bad:
                res.fail("search", "%ssearch %d of thread %d, %s: %s" % (when, j, k, V.short(x.q), bad))
                return True
        for f, *args in a.bad:
            bad = f(*args)
            res.note(k, type(args[-1]).__name__, bad)
            if bad:
                res.fail("first", "%sthread %d: %s" % (when, k, bad))
                return True
    for doc, spec in docs:
        bad = V.same(spec, V.summarize(doc))
        if bad:
            res.fail("changed", "searching changed a document: %s" % bad)
            return True
    return False


def size(case):
    return sum(len(t) for t in case["threads"]) + sum(len(x["changes"]) + len(x["script"]) for x in case.get("rounds", ()))


def shrink(case):
    ths = case["threads"]
    for k in range(len(ths)):
        if len(ths) > 1:
            yield {**case, "threads": ths[:k] + ths[k + 1:], "sched": conc.drop_thread(case["sched"], k)}
    for k, t in enumerate(ths):
        for w in (8, 4, 2, 1):
            for i in range(0, len(t), w):
                if len(t) > w:
                    yield {**case, "threads": ths[:k] + [t[:i] + t[i + w:]] + ths[k + 1:]}
    rs = case.get("rounds", ())
    for i, x in enumerate(rs):
        yield {**case, "rounds": rs[:i] + rs[i + 1:]}
        for part in ("changes", "script"):
            for j in range(len(x[part])):
                yield {**case, "rounds": rs[:i] + [{**x, part: x[part][:j] + x[part][j + 1:]}] + rs[i + 1:]}
    for i in range(len(case["early"])):
        yield {**case, "early": case["early"][:i] + case["early"][i + 1:]}
    for i, x in enumerate(case["docs"]):
        for s in V.shrinks(x["spec"]):
            yield {**case, "docs": case["docs"][:i] + [{**x, "spec": s}] + case["docs"][i + 1:]}
