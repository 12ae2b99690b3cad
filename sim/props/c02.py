"""Concurrent readers of one document."""
import os

from sim import conc
from sim import ops as O
from sim import runtime as rt
from sim import sched as S
from sim import vocab as V

ID = "C02"
LEVEL = "exploration"
DEEP = 0.02
VOID = (0, 0, 0.5)
RUNS = {"quick": 4000, "thorough": 60000}
RULE = ("2 to 4 simulated threads execute 1 to 4 read-only operations (serialise with different options, write, validate, "
        "search, compare, print, read geometries) on one shared document, which was built or read; preempted at line or "
        "call granularity. Outcomes are compared with the same operation alone in a process of its own; afterwards the "
        "document is compared with its specification. Non-trivial: at least one preemption inside a call.")
DISTINCT = "hash of the complete sequence of (thread, step within the thread, next thread) and of all outcomes"
REAL = ["fastkml (all modules)", "lxml / xml.etree", "pygeoif", "arrow", "zipfile", "files in a scratch directory"]
STUB = ["thread scheduler", "threading.Lock / RLock", "time.sleep", "logging handler"]
ASSUME = ["a thread can only be preempted between Python lines and at returns from calls of the library (C code of the XML back end "
          "and other packages runs as one step)"]


def gen(r, tier):
    kind = r.choice([k for k, _ in O.SHARED]) if r.random() < 0.5 else None
    if kind == "geometry" and r.random() < 0.7:
        r.focus = r.choice(("track", "coords"))
    spec = V.gen_kml(r, O.dense(r))
    n = r.choice((2, 2, 3, 4))

    def op():
        if kind == "find" or (kind and r.random() < 0.8):
            return O.Find.gen(r, True, spec) if kind == "find" else O.OPS[kind].gen(r, shared=True)
        return O.gen_op(r, O.SHARED, True, spec)
    return {"backend": r.choice(("lxml", "lxml", "et")), "gran": "fine" if r.random() < 0.2 else "line",
            "origin": "build" if any(s["c"] == "NetworkLinkControl" or s.get("void") for _, s in V.walk(spec)) else
            r.choice(("build", "parse", "string")), "spec": spec,
            "threads": [[op() for _ in range(r.choice((1, 1, 2, 4)))] for _ in range(n)],
            "sched": S.gen_policy(r, int(10 ** r.uniform(2.5, 4.5)))}


def origin(case):
    def make(env):
        env.shared = make_doc(case)
        env.shared_spec = spec_in_order(case, env.shared)
        env.maker = lambda spec: make_doc(case, spec)
    return make


def spec_in_order(case, doc):
    """Reading groups children by class; that order is not what is checked here."""
    return case["spec"] if case["origin"] == "build" else V.regroup(case["spec"], V.summarize(doc))


def make_doc(case, spec=None):
    from fastkml import KML
    spec = spec or case["spec"]
    if case["origin"] == "build":
        return V.build(spec)
    text = V.render(spec)
    if case["origin"] == "string":
        return KML.from_string(text)
    import io
    return KML.parse(io.BytesIO(text.encode("utf-8")), validate=False)


def run(case, d, res):
    be = case["backend"]
    mk = origin(case)
    alone = [[conc.solo(op, be, os.path.join(d, "s%d-%d" % (k, j)), mk) for j, op in enumerate(t)]
             for k, t in enumerate(case["threads"])]
    rt.set_backend(be)
    doc = make_doc(case)
    spec = spec_in_order(case, doc)
    envs, lists, outs = [], [], []
    for k, t in enumerate(case["threads"]):
        dd = os.path.join(d, "t%d" % k)
        os.makedirs(dd)
        env = O.Env(dd, be)
        env.shared, env.shared_spec = doc, spec
        env.maker = lambda x: make_doc(case, x)
        envs.append(env)
        lists.append([(op, O.OPS[op["op"]].prepare(op, env)) for op in t])
        outs.append([None] * len(t))
    rt.cap.clear()
    s = conc.simulate([conc.op_thread(lists[k], envs[k], outs[k], False) for k in range(len(lists))], case)
    conc.finish(s, res)
    res.trivial = s.switches <= len(lists)
    for k, t in enumerate(lists):
        for j, (op, ctx) in enumerate(t):
            if outs[k][j] is None:
                continue
            out, logs = outs[k][j]
            dig = O.OPS[op["op"]].digest(op, ctx, out)
            bad = O.check(op, ctx, out, envs[k], logs)
            res.note(k, j, op["op"], rt.h(dig), bad)
            res.probes["op " + op["op"]] += 1
            if dig != alone[k][j][0]:
                res.fail("differs", "%s in thread %d: alone %s, together %s" % (
                    op["op"], k, V.short(alone[k][j][0]), V.short(dig)))
            elif bad and not alone[k][j][1]:
                res.fail("wrong", "%s in thread %d: %s" % (op["op"], k, bad))
            elif bad:
                res.probes["also wrong alone: %s" % op["op"]] += 1
                res.note("alone", bad)
    # the document is what it was
    ref = conc.solo({"op": "snapshot"}, be, os.path.join(d, "ref"), mk)
    now = snapshot(doc)
    for a, b, what in zip(ref[0], now, ("content", "representation", "XML", "verbose XML")):
        if a != b:
            res.fail("changed", "%s of the document changed: before %s, after %s" % (what, V.short(a), V.short(b)))
            break
    for e in envs:
        e.close()


def snapshot(doc):
    from fastkml.enums import Verbosity
    return [repr(V.canon(V.summarize(doc))), repr(doc), doc.to_string(),
            doc.to_string(verbosity=Verbosity.verbose, precision=3)]


class Snapshot(O.DocOp):
    name = "snapshot"

    @staticmethod
    def prepare(op, env):
        return {}

    @staticmethod
    def run(op, ctx, env):
        return snapshot(env.shared)

    @staticmethod
    def check(op, ctx, out, env, logs):
        return None

    @staticmethod
    def digest(op, ctx, out):
        return out.value if isinstance(out, O.Ok) else ["raised %r" % out.exc]


O.OPS["snapshot"] = Snapshot


def size(case):
    return sum(len(t) for t in case["threads"])


def shrink(case):
    yield from conc.shrink_threads(case)
    for s in V.shrinks(case["spec"]):
        yield {**case, "spec": s}
