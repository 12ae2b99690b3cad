"""Interruptions at any point reach the caller and leave nothing broken."""
import contextlib
import os
import sys

from sim import conc
from sim import inject
from sim import ops as O
from sim import runner
from sim import runtime as rt
from sim import sched as S
from sim import vocab as V
from sim.props import c02

ID = "C08"
LEVEL = "exploration"
DEEP = 0.01
RUNS = {"quick": 3000, "thorough": 80000}
RULE = ("a history of 1 to 4 catalogue operations, some on one shared document and some on documents of their own; each may "
        "be interrupted by an exception delivered at a seeded execution point inside the library (function entry or return "
        "from a call), once, up to 120 times in a row, or at up to 26 different points one after the other. The interrupted call must end with that very exception; then the shared document and the documents of "
        "read-only calls are compared with what they were, locks must be free, and a retry and all later operations must "
        "give what they give in a process of their own. In a quarter of the executions another simulated thread runs at "
        "the same time and must get its normal results. Non-trivial: at least one exception was delivered.")
DISTINCT = "hash of operations, delivery points (file, line, function), kinds and outcomes"
REAL = ["fastkml (all modules)", "lxml / xml.etree", "pygeoif", "arrow", "zipfile", "files in a scratch directory"]
STUB = ["the source of the exception (raised by the simulator at the chosen point)", "thread scheduler",
        "threading.Lock / RLock", "logging handler"]
ASSUME = ["exceptions arrive where CPython can deliver them: on entry of a Python function and on return from a call"]
KINDS = ("KeyboardInterrupt", "KeyboardInterrupt", "SimTimeout", "SimExit", "MemoryError", "MemoryError", "RecursionError", "limit")


def gen(r, tier):
    spec = V.gen_kml(r, O.dense(r))
    nlc = any(s["c"] == "NetworkLinkControl" for _, s in V.walk(spec))
    kind = r.choice([k for k, _ in O.OWN]) if r.random() < 0.5 else None

    def op():
        if r.random() < 0.4:
            return O.gen_op(r, O.SHARED, True, spec)
        return O.OPS[kind].gen(r) if kind and r.random() < 0.7 else O.gen_op(r)
    steps = []
    for _ in range(r.choice((1, 1, 2, 3, 4))):
        o = op()
        steps.append({"op": o, "hit": {"at": r.random(), "kind": r.choice(KINDS), "calls": r.random() < 0.3}
                      if r.random() < 0.75 else None, "retry": r.random() < 0.7, "same": r.random() < 0.5})
        if steps[-1]["hit"] and r.random() < 0.12:
            steps[-1]["times"] = r.choice((2, 3, 12, 40, 120))
        elif steps[-1]["hit"] and r.random() < 0.5:
            steps[-1]["more"] = [r.random() for _ in range(r.choice((3, 10, 25)))]
    case = {"backend": r.choice(("lxml", "lxml", "et")), "origin": "build" if nlc else r.choice(("build", "parse", "string")),
            "spec": spec, "steps": steps, "final": [op() for _ in range(r.choice((0, 1, 2)))], "other": None,
            "gran": "line"}
    if r.random() < 0.25:
        case["other"] = [op() for _ in range(r.choice((1, 2)))]
        case["sched"] = S.gen_policy(r, int(10 ** r.uniform(2, 4)))
    return case


def choose_point(op, case, dir_, mk, calls, x):
    def body():
        os.makedirs(dir_, exist_ok=True)
        rt.set_backend(case["backend"])
        env = O.Env(dir_, case["backend"])
        mk(env)
        ctx = O.OPS[op["op"]].prepare(op, env)
        with inject.Injector(calls=calls) as i:
            O.execute(op, ctx, env)
        return [i.choose(y) for y in x]
    st, n = runner.fork_call(body)
    return n if st == "ok" else [None] * len(x)


def run(case, d, res):
    be = case["backend"]
    mk = c02.origin(case)
    n = [0]

    def dirname():
        n[0] += 1
        p = os.path.join(d, "d%d" % n[0])
        os.makedirs(p, exist_ok=True)
        return p
    plans = []
    for st in case["steps"]:
        alone = conc.solo(st["op"], be, dirname(), mk)
        at, more = None, []
        if st["hit"] and st["hit"]["kind"] == "limit":
            at = -1
        elif st["hit"]:
            at, *more = choose_point(st["op"], case, dirname(), mk, st["hit"]["calls"] or bool(case["other"]),
                                     [st["hit"]["at"], *st.get("more", ())])
        plans.append((st, alone, at, more))
    final = [(op, conc.solo(op, be, dirname(), mk)) for op in case["final"]]
    other = [(op, conc.solo(op, be, dirname(), mk)) for op in case["other"] or []]
    ref = conc.solo({"op": "snapshot"}, be, dirname(), mk)
    rt.set_backend(be)
    doc = c02.make_doc(case)
    spec = c02.spec_in_order(case, doc)

    def fresh():
        e = O.Env(dirname(), be)
        e.shared, e.shared_spec = doc, spec
        e.maker = lambda x: c02.make_doc(case, x)
        return e
    if case["other"]:
        main, side = [], []
        env2 = fresh()
        pairs = [(op, O.OPS[op["op"]].prepare(op, env2)) for op, _ in other]
        outs = [None] * len(pairs)

        def body():
            history(plans, fresh, main, S.me().id)
            S.me().injector = None
        rt.cap.clear()
        s = conc.simulate([body, conc.op_thread(pairs, env2, outs, False)], case, inject=True)
        conc.finish(s, res)
        for (op, alone), (_, ctx), got in zip(other, pairs, outs):
            if got is not None:
                settle(op, ctx, got[0], env2, got[1], alone, res, "in another thread")
        done = main
    else:
        done = []
        rt.cap.clear()
        before = rt.settings()
        history(plans, fresh, done, None)
        bad = rt.changed_settings(before)
        if bad:
            res.fail("settings", "after %s, a setting of the process is changed: %s" % (
                ", ".join("%s%s" % (x["op"]["op"], " (interrupted)" if x["inj"] else "") for x in done), bad))
    for step in done:
        judge(step, res)
    if S.held_locks():
        res.fail("lock held", "%d locks stay held after all calls ended" % len(S.held_locks()))
    for op, alone in final:
        env = fresh()
        ctx = O.OPS[op["op"]].prepare(op, env)
        rt.cap.clear()
        out = O.execute(op, ctx, env)
        settle(op, ctx, out, env, list(rt.cap.of()), alone, res, "after the interruption")
    now = c02.snapshot(doc)
    for a, b, what in zip(ref[0], now, ("content", "representation", "XML", "verbose XML")):
        if a != b:
            res.fail("changed", "%s of the shared document changed: before %s, after %s" % (what, V.short(a), V.short(b)))
            break
    res.trivial = not res.faults and not any(x.get("inj") is not None and x["inj"].exc is not None for x in done)


def history(plans, fresh, done, tid):
    """Execute the steps; only collects."""
    for st, alone, at, more in plans:
        op = st["op"]
        env = fresh()
        ctx = O.OPS[op["op"]].prepare(op, env)
        x = {"op": op, "alone": alone, "ctx": ctx, "env": env, "inj": None, "hit": st["hit"]}
        if ctx.get("doc") is not None and op["op"] != "mutate":
            x["looks"] = repr(ctx["doc"])
        done.append(x)
        if at is not None:
            if st["hit"]["kind"] == "limit":
                inj = Limit(4 + int(st["hit"]["at"] * 36)) if tid is None else contextlib.nullcontext()
            else:
                inj = x["inj"] = inject.Injector(at, st["hit"]["kind"], st["hit"]["calls"])
            if x["inj"] is not None and tid is None:  # interrupted there again and again before, or at other points
                left = 60000
                for p in [at] * (st.get("times", 1) - 1) + more:
                    left -= p + 200
                    if left < 0:
                        break
                    e2 = fresh()
                    c2 = O.OPS[op["op"]].prepare(op, e2)
                    i2 = inject.Injector(p, st["hit"]["kind"], st["hit"]["calls"])
                    k = len(rt.cap.of(tid))
                    with i2:
                        o2 = attempt(op, c2, e2)
                    x["before"] = x.get("before", 0) + (i2.exc is not None)
                    if i2.exc is None and p != at:      # (caches are warm now: fewer points)
                        continue
                    if i2.exc is None or isinstance(o2, O.Ok) and i2.unraisable is None or isinstance(o2, O.Err) and o2.exc is not i2.exc \
                            or S.held_locks():
                        x.update(ctx=c2, env=e2, inj=i2, out=o2, logs=rt.cap.of(tid)[k:])
                        break
            if "out" not in x:
                k = len(rt.cap.of(tid))
                with inj:
                    x["out"] = attempt(op, ctx, env)
                x["logs"] = rt.cap.of(tid)[k:]
            x["free"] = tid is not None or not S.held_locks()
        if at is None or st["retry"]:
            if st.get("same") and op["op"] not in ("parse", "mutate"):  # the very same call: same document, same target
                env2, ctx2 = env, ctx
            else:
                env2 = fresh()
                ctx2 = O.OPS[op["op"]].prepare(op, env2)
            k = len(rt.cap.of(tid))
            out = O.execute(op, ctx2, env2)
            x["again"] = (op, ctx2, out, env2, rt.cap.of(tid)[k:])


def attempt(op, ctx, env):
    try:
        return O.Ok(O.OPS[op["op"]].run(op, ctx, env))
    except BaseException as e:  # noqa: BLE001
        return O.Err(e)


def settle(op, ctx, out, env, logs, alone, res, when):
    dig = O.OPS[op["op"]].digest(op, ctx, out)
    bad = O.check(op, ctx, out, env, logs)
    res.note(op["op"], rt.h(dig), bad)
    res.probes["op " + op["op"]] += 1
    if dig != alone[0]:
        res.fail("differs", "%s %s: fresh process %s, here %s" % (op["op"], when, V.short(alone[0]), V.short(dig)))
    elif bad and not alone[1]:
        res.fail("wrong", "%s %s: %s" % (op["op"], when, bad))


class Limit:
    """Real stack exhaustion: only `room` more Python frames fit."""

    def __init__(self, room):
        self.room = room

    def __enter__(self):
        f, n = sys._getframe(1), 0
        while f is not None:
            f, n = f.f_back, n + 1
        self.old = sys.getrecursionlimit()
        sys.setrecursionlimit(n + self.room)

    def __exit__(self, *a):
        sys.setrecursionlimit(self.old)


def judge(x, res):
    op, inj = x["op"], x["inj"]
    res.steps += 1
    if inj is None and "out" in x:
        out = x["out"]
        if isinstance(out, O.Err) and isinstance(out.exc, RecursionError):
            res.faults["stack exhausted"] += 1
            if not x["free"]:
                res.fail("lock held", "%s with an exhausted stack: a lock stays held" % op["op"])
        else:
            settle(op, x["ctx"], out, x["env"], x["logs"], x["alone"], res, "with little stack")
    if x.get("before"):
        res.faults["%s (one of many)" % x["hit"]["kind"]] += x["before"]
    if inj is not None:
        out = x["out"]
        where = "%s of %s at %s" % (x["hit"]["kind"], op["op"], inj.where)
        if inj.exc is not None:
            res.faults[x["hit"]["kind"]] += 1
            res.note(where)
            res.probes["delivered in " + op["op"]] += 1
            if inj.unraisable is not None:
                res.probes["delivered to a destructor"] += 1
            elif isinstance(out, O.Ok):
                res.fail("swallowed", "%s: the call returned normally" % where)
            elif out.exc is not inj.exc:
                how = "after" if any(e is inj.exc for e in inject.chain(out.exc)) else "without"
                res.fail("replaced", "%s: the caller got %s: %s (%s it)" % (where, type(out.exc).__name__, out.exc, how))
            if not x["free"]:
                res.fail("lock held", "%s: a lock stays held" % where)
            inj.exc.__traceback__ = None
            doc = x["ctx"].get("doc")
            if doc is not None and op["op"] != "mutate" and "spec" in op:
                bad = V.same(op["spec"], V.summarize(doc))
                if bad and not x["alone"][1]:
                    res.fail("changed", "%s: the document changed: %s" % (where, bad))
            if "looks" in x and repr(doc) != x["looks"]:
                res.fail("changed", "%s: the document's representation changed: %s, now %s" % (
                    where, V.short(x["looks"]), V.short(repr(doc))))
            if op["op"] == "mutate":
                bad = prefix_mutation(op, x["ctx"]["doc"])
                if bad:
                    res.fail("half changed", "%s: %s" % (where, bad))
        else:
            settle(op, x["ctx"], out, x["env"], x["logs"], x["alone"], res, "(not interrupted)")
    if "again" in x:
        op, ctx, out, env, logs = x["again"]
        settle(op, ctx, out, env, logs, x["alone"], res, "repeated after the interruption" if inj else "in the history")


def prefix_mutation(op, doc):
    """An interrupted sequence of changes has done a leading part of them."""
    got = V.summarize(doc)
    for k in range(len(op["add"]) + 1):
        for named in (0, 1):
            o = {**op, "add": op["add"][:k]}
            s = O.Mutate.expected(o)
            if not named:
                c, c0 = s["f"]["features"], op["spec"]["f"]["features"]
                i = len(c0) - 1
                if c[i]["c"] != "NetworkLinkControl":
                    if "name" in c0[i]["f"]:
                        c[i]["f"]["name"] = c0[i]["f"]["name"]
                    else:
                        c[i]["f"].pop("name", None)
            bad = V.same(s, got)
            if not bad:
                return None
    return "not a leading part of the changes: %s" % bad


def size(case):
    return len(case["steps"]) + len(case["final"]) + len(case["other"] or [])


def shrink(case):
    st = case["steps"]
    if case["other"]:
        yield {**case, "other": None}
    for i in range(len(st)):
        if len(st) > 1:
            yield {**case, "steps": st[:i] + st[i + 1:]}
    for i in range(len(case["final"])):
        yield {**case, "final": case["final"][:i] + case["final"][i + 1:]}
    for i in range(len(st)):
        if st[i].get("times", 1) > 1:
            yield {**case, "steps": st[:i] + [{**st[i], "times": 1}] + st[i + 1:]}
            yield {**case, "steps": st[:i] + [{**st[i], "times": st[i]["times"] // 2}] + st[i + 1:]}
        if st[i].get("more"):
            m = st[i]["more"]
            yield {**case, "steps": st[:i] + [{**st[i], "more": []}] + st[i + 1:]}
            yield {**case, "steps": st[:i] + [{**st[i], "more": [], "hit": {**st[i]["hit"], "at": m[0]}}] + st[i + 1:]}
            yield {**case, "steps": st[:i] + [{**st[i], "more": m[:len(m) // 2]}] + st[i + 1:]}
            yield {**case, "steps": st[:i] + [{**st[i], "more": m[len(m) // 2:]}] + st[i + 1:]}
        if st[i]["hit"] and len(st) > 1:
            yield {**case, "steps": st[:i] + [{**st[i], "hit": None, "retry": True}] + st[i + 1:]}
        for o in O.shrink_op(st[i]["op"]):
            yield {**case, "steps": st[:i] + [{**st[i], "op": o}] + st[i + 1:]}
    for s in V.shrinks(case["spec"]):
        yield {**case, "spec": s}
    for i, o in enumerate(case["final"]):
        for p in O.shrink_op(o):
            yield {**case, "final": case["final"][:i] + [p] + case["final"][i + 1:]}
