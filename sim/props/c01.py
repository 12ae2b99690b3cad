"""Threads on separate documents do not affect each other."""
import os

from sim import conc
from sim import ops as O
from sim import runtime as rt
from sim import sched as S

ID = "C01"
LEVEL = "exploration"
DEEP = 0.01
RUNS = {"quick": 4000, "thorough": 60000}
RULE = ("2 to 4 simulated threads, each executing 1 to 3 catalogue operations on documents of its own (in a third of the executions "
        "on documents of equal structure); the seeded "
        "scheduler preempts at line or call granularity inside the library. Every outcome is compared with the "
        "outcome of the same operation alone in a process of its own. Non-trivial: at least one preemption inside a call.")
DISTINCT = "hash of the complete sequence of (thread, step within the thread, next thread) and of all outcomes"
REAL = ["fastkml (all modules)", "lxml / xml.etree", "pygeoif", "arrow", "zipfile", "files in a scratch directory"]
STUB = ["thread scheduler", "threading.Lock / RLock", "time.sleep", "logging handler", "input streams (sometimes)"]
ASSUME = ["a thread can only be preempted between Python lines and at returns from calls of the library (C code of the XML back end "
          "and other packages runs as one step)"]


def gen(r, tier):
    n = r.choice((2, 2, 2, 3, 4))
    kind = r.choice([k for k, _ in O.OWN]) if r.random() < 0.5 else None
    twins = r.random() < 0.35
    ths = [[O.OPS[kind].gen(r) if kind and r.random() < 0.8 else O.gen_op(r) for _ in range(r.choice((1, 1, 2, 3)))]
           for _ in range(1 if twins else n)]
    if twins:
        ths += [[O.twin(r, op) for op in ths[0]] for _ in range(n - 1)]
    share = r.random() < 0.35  # all files in one directory, the same names with different endings
    if share:
        exts = r.sample([".kml", ".kmz", ".xml", ".KML", ".a.kml", ".b.kml", ".kml.kmz"], n)
        for t, e in zip(ths, exts):
            for op in t:
                if op["op"] == "write":
                    op["ext"] = e
    return {"share": share, "backend": r.choice(("lxml", "lxml", "et")), "gran": "fine" if r.random() < 0.2 else "line",
            "late": r.random() < 0.5, "threads": ths,
            "sched": S.gen_policy(r, int(10 ** r.uniform(2.5, 4.5)))}


def run(case, d, res):
    be = case["backend"]
    alone = [[conc.solo(op, be, os.path.join(d, "s%d-%d" % (k, j))) for j, op in enumerate(t)]
             for k, t in enumerate(case["threads"])]
    rt.set_backend(be)
    envs, lists, outs = [], [], []
    for k, t in enumerate(case["threads"]):
        dd = os.path.join(d, "shared" if case.get("share") else "t%d" % k)
        os.makedirs(dd, exist_ok=True)
        env = O.Env(dd, be)
        env.tag = "t%d-" % k
        envs.append(env)
        lists.append([(op, {} if case["late"] else O.OPS[op["op"]].prepare(op, env)) for op in t])
        outs.append([None] * len(t))
    rt.cap.clear()
    s = conc.simulate([conc.op_thread(lists[k], envs[k], outs[k], case["late"]) for k in range(len(lists))], case)
    conc.finish(s, res)
    res.trivial = s.switches <= len(lists)
    for k, t in enumerate(lists):
        for j, (op, ctx) in enumerate(t):
            if outs[k][j] is None:
                continue
            out, logs = outs[k][j]
            dig = O.OPS[op["op"]].digest(op, ctx, out)
            bad = O.check(op, ctx, out, envs[k], logs)
            res.note(k, j, op["op"], rt.h(dig), bad)
            res.probes["op " + op["op"]] += 1
            if dig != alone[k][j][0]:
                res.fail("differs", "%s in thread %d: alone %s, together %s" % (op["op"], k, clip(alone[k][j][0]), clip(dig)))
            elif bad and not alone[k][j][1]:
                res.fail("wrong", "%s in thread %d: %s" % (op["op"], k, bad))
            elif bad:
                res.probes["also wrong alone: %s" % op["op"]] += 1
                res.note("alone", bad)
    for e in envs:
        e.close()


def clip(x):
    return x if len(x) < 300 else x[:300] + "..."


def size(case):
    return sum(len(t) for t in case["threads"])


shrink = conc.shrink_threads
