"""Concurrent registrations of custom mappings."""
import os

from sim import conc
from sim import inject
from sim import ops as O
from sim import runtime as rt
from sim import sched as S
from sim import vocab as V

ID = "C10"
LEVEL = "exploration"
RUNS = {"quick": 8000, "thorough": 200000}
RULE = ("1 to 5 simulated threads register mappings for a hierarchy of custom classes and for library classes (often the same "
        "class at the same time), look mappings up, serialise and read objects of these classes, and execute ordinary "
        "catalogue operations; preempted at line or call granularity; some registrations are interrupted. The recorded "
        "history (start and end of every call, in scheduler order) is checked against a sequential registry: nothing lost or "
        "doubled, thread and real-time order kept, every lookup a prefix that holds all earlier registrations. Non-trivial: "
        "a preemption inside a call, or an interruption.")
DISTINCT = "hash of the complete sequence of (thread, step within the thread, next thread) and of all outcomes"
REAL = ["fastkml (all modules)", "lxml / xml.etree"]
STUB = ["thread scheduler", "threading.Lock / RLock", "the source of interruptions"]
ASSUME = ["a thread can only be preempted between Python lines and at returns from calls of the library"]
#        index: name, base, ancestors
TABLE = {0: ("K0", None, (0,)), 1: ("K1", 0, (0, 1)), 2: ("K2", 1, (0, 1, 2)), 3: ("K3", 0, (0, 3)), 4: ("P0", 5, (9, 5, 4)),
         5: ("Placemark", 9, (9, 5)), 6: ("Document", 9, (9, 6)), 7: ("X0", None, (7,)), 8: ("X1", 7, (7, 8)),
         9: ("_Feature", None, (9,))}
KINDS = ("text", "attr", "int")


def gen(r, tier):
    n, made = [0], []
    hot = r.choice(sorted(TABLE)) if r.random() < 0.6 else None

    def cls():
        return hot if hot is not None and r.random() < 0.7 else r.choice(sorted(TABLE))

    def related(c):
        return r.choice([k for k in TABLE if c in TABLE[k][2]]) if r.random() < 0.5 else c

    def act():
        k = r.random()
        if k < 0.55:
            n[0] += 1
            a = {"do": "reg", "cls": cls(), "n": n[0], "kind": r.choice(KINDS)}
            if made and r.random() < 0.15:  # another mapping for the same attribute, or for the same node
                b = r.choice(made)
                a.update(cls=b["cls"], kind=b["kind"])
                if r.random() < 0.3 and b["kind"] != "int" and not b.get("both"):  # an attribute and an element of the same name
                    b["both"] = True
                    a.update(like=b["n"], node=b["n"], kind="text" if b["kind"] == "attr" else "attr")
                elif b["kind"] == "attr" or r.random() < 0.6:
                    a["like"] = b["n"]
                else:
                    a["node"] = b["n"]
            elif r.random() < 0.9:
                made.append(a)
            return {**a, "hit": r.choice(("KeyboardInterrupt", "MemoryError", "SimTimeout")) if r.random() < 0.08 else None,
                    "at": r.choice((0, 0, 1, 2, 3))}
        if k < 0.78:
            return {"do": "get", "cls": related(cls()), "spoil": r.choice((None, None, "clear", "append", "reverse"))}
        if k < 0.95:
            c = related(cls())
            return {"do": "get" if c == 9 else "ser" if k < 0.87 else "parse", "cls": c}
        return {"do": "op", "op": O.gen_op(r)}
    return {"backend": r.choice(("lxml", "lxml", "et")), "gran": "fine" if r.random() < 0.35 else "line",
            "own": r.random() < 0.15,
            "threads": [[act() for _ in range(r.choice((1, 2, 4, 8)))] for _ in range(r.choice((1, 2, 2, 3, 5)))],
            "after": O.gen_op(r) if r.random() < 0.2 else None,
            "sched": S.gen_policy(r, int(10 ** r.uniform(1, 3)))}


def classes():
    from fastkml.containers import Document
    from fastkml.base import _XMLObject
    from fastkml.features import Placemark
    from fastkml.features import _Feature
    from fastkml.kml_base import _BaseObject
    out = {5: Placemark, 6: Document, 9: _Feature}
    for i in (0, 1, 2, 3, 4, 7, 8):
        name, base, _ = TABLE[i]
        body = {"_default_nsid": "kml", "get_tag_name": classmethod(lambda cls, name=name: "Placemark" if name == "P0" else name)}
        out[i] = type(name, (out[base] if base is not None else _XMLObject if i == 7 else _BaseObject,), body)
    return out


def item(a):
    from fastkml import helpers as h
    from fastkml.registry import RegistryItem
    get, put = {"text": (h.subelement_text_kwarg, h.text_subelement), "attr": (h.attribute_text_kwarg, h.text_attribute),
                "int": (h.subelement_int_kwarg, h.int_subelement)}[a["kind"]]
    ns = ("",) if a["kind"] == "attr" else ("kml",)
    return RegistryItem(ns_ids=ns, classes=(int if a["kind"] == "int" else str,), attr_name=name(a), get_kwarg=get,
                        set_element=put, node_name=node(a))


def name(a):
    return "own_%d" % a.get("like", a["n"])


def node(a):
    return "x%d" % a.get("node", a["n"])


def key(a):
    return "%s/%s/%s" % (name(a), node(a), "a" if a["kind"] == "attr" else "e")


def keys(items):
    return ["%s/%s/%s" % (x.attr_name, x.node_name, "a" if getattr(x.get_kwarg, "__name__", "").startswith("attribute_") else "e") for x in items]


def value(a):
    n = a.get("like", a["n"])
    return n if a["kind"] == "int" else "v%d" % n


def run(case, d, res):
    from fastkml import registry as R
    be = case["backend"]
    alone = {}
    for k, t in enumerate(case["threads"]):
        for j, a in enumerate(t):
            if a["do"] == "op":
                alone[k, j] = conc.solo(a["op"], be, os.path.join(d, "s%d-%d" % (k, j)))
    if case["after"]:
        alone["after"] = conc.solo(case["after"], be, os.path.join(d, "sa"))
    rt.set_backend(be)
    cl = classes()
    reg = R.registry if not case["own"] else R.Registry()
    std = {i: keys(reg.get(cl[i])) for i in TABLE}
    held = []
    regs = [a for t in case["threads"] for a in t if a["do"] == "reg"]
    by_name = {key(a): a for a in regs}
    shared = {a[k] for a in regs for k in ("like", "node") if k in a}
    plain = {key(a) for a in regs if a["n"] not in shared and "like" not in a and "node" not in a}
    if case["own"]:
        regs_for = lambda i: []  # noqa: E731
    else:
        regs_for = lambda i: [a for a in regs if a["cls"] in TABLE[i][2]]  # noqa: E731
    clock = [0]
    hist = []

    def tick():
        clock[0] += 1
        return clock[0]

    def body(k, acts, env):
        def go():
            tid = S.me().id
            for j, a in enumerate(acts):
                e = {"a": a, "k": k, "j": j, "start": tick(), "exc": None}
                if a["do"] == "reg":
                    it = item(a)
                    inj = inject.Injector(a["at"], a["hit"]) if a["hit"] else None
                    try:
                        if inj:
                            with inj:
                                reg.register(cl[a["cls"]], it)
                        else:
                            reg.register(cl[a["cls"]], it)
                    except BaseException as x:  # noqa: BLE001
                        e["exc"] = x
                    e["inj"] = inj.exc if inj else None
                elif a["do"] == "op":
                    ctx = O.OPS[a["op"]["op"]].prepare(a["op"], env)
                    n = len(rt.cap.of(tid))
                    out = O.execute(a["op"], ctx, env)
                    e["out"] = (ctx, out, rt.cap.of(tid)[n:], env)
                else:
                    try:
                        e["seen"] = look(a)
                    except Exception as x:  # noqa: BLE001
                        e["exc"] = x
                e["end"] = tick()
                hist.append(e)
        return go

    def look(a):
        c = cl[a["cls"]]
        if a["do"] == "get" or case["own"]:
            items = reg.get(c)
            out = keys(items)
            if isinstance(items, list) and a.get("spoil"):  # the list belongs to the caller
                if a["spoil"] == "append":
                    items.append(items[0] if items else None)
                else:
                    getattr(items, a["spoil"])()
            else:
                held.append((a, items, out))
            return out
        mine = regs_for(a["cls"])
        if a["do"] == "ser":
            text = c(**{name(x): value(x) for x in mine}).to_string()
            import xml.etree.ElementTree as ET
            root = ET.fromstring(text)
            got = []
            for ch in root:
                tag = ch.tag.split("}")[-1]
                if tag.startswith("x"):
                    k = "own_%s/%s/e" % ((ch.text or "").lstrip("v"), tag)
                    if k not in by_name or ch.text != str(value(by_name[k])):
                        raise AssertionError("value of %s is %r" % (tag, ch.text))
                    got.append(k)
            for k, v in root.attrib.items():
                if k.startswith("x"):
                    k = "own_%s/%s/a" % (v.lstrip("v"), k)
                    if k not in by_name or v != value(by_name[k]):
                        raise AssertionError("value of %s is %r" % (k, v))
                    got.append(k)
            return got
        mine = [x for x in mine if key(x) in plain]
        subs = "".join("<x%d>%s</x%d>" % (x["n"], value(x), x["n"]) for x in mine if x["kind"] != "attr")
        attrs = "".join(' x%d="%s"' % (x["n"], value(x)) for x in mine if x["kind"] == "attr")
        tag = c.get_tag_name()
        o = c.from_string('<%s xmlns="%s"%s>%s</%s>' % (tag, V.KML, attrs, subs, tag))
        got = []
        for x in mine:
            v = getattr(o, name(x), None)
            if v is not None:
                got.append(key(x))
                if v != value(x):
                    raise AssertionError("value of %s is %r" % (name(x), v))
        return got

    envs = []
    for k in range(len(case["threads"])):
        dd = os.path.join(d, "t%d" % k)
        os.makedirs(dd)
        envs.append(O.Env(dd, be))
    rt.cap.clear()
    s = conc.simulate([body(k, t, envs[k]) for k, t in enumerate(case["threads"])], case, inject=any(a.get("hit") for t in case["threads"] for a in t))
    conc.finish(s, res)
    res.trivial = s.switches <= len(case["threads"]) and not any(e.get("inj") for e in hist)
    if s.failure:
        return
    # ------------------------------------------------ history against a sequential registry
    own = {e["a"]["n"]: e for e in hist if e["a"]["do"] == "reg"}
    final = {}
    for i in TABLE:
        got = keys(reg.get(cl[i]))
        res.note(i, got[len(std[i]):])
        mine = [x for x in got if x in by_name]
        if [x for x in got if x not in by_name] != std[i]:
            res.fail("other mappings", "the mappings of %s that existed before changed" % TABLE[i][0])
        for anc in TABLE[i][2]:
            f = [x for x in mine if by_name[x]["cls"] == anc]
            if anc in final and final[anc] != f:
                res.fail("subclass", "%s sees %s of %s, %s were seen by another class" % (TABLE[i][0], f, TABLE[anc][0], final[anc]))
            final.setdefault(anc, f)
        strange = [x for x in mine if by_name[x]["cls"] not in TABLE[i][2]]
        if strange:
            res.fail("strange", "%s sees %s of another class" % (TABLE[i][0], strange))
    for n, e in own.items():
        a = e["a"]
        k = final[a["cls"]].count(key(a))
        what = "registration %d for %s by thread %d" % (n, TABLE[a["cls"]][0], e["k"])
        res.probes["registrations"] += 1
        if e["exc"] is not None and e["inj"] is None:
            res.fail("refused", "%s raised %s: %s" % (what, type(e["exc"]).__name__, e["exc"]))
        elif e["inj"] is not None:
            res.faults[a["hit"]] += 1
            if e["exc"] is not e["inj"]:
                res.fail("swallowed", "%s: the interruption did not reach the caller" % what)
            if k > 1:
                res.fail("doubled", "%s was interrupted and is there %d times" % (what, k))
        elif k != 1:
            res.fail("lost" if k == 0 else "doubled", "%s returned and is there %d times" % (what, k))
    if res.violations:
        return
    pos = {x: i for f in final.values() for i, x in enumerate(f)}
    done = [e for e in own.values() if key(e["a"]) in pos]
    for x in done:
        for y in done:
            if x["a"]["cls"] == y["a"]["cls"] and x["end"] < y["start"] and pos[key(x["a"])] > pos[key(y["a"])]:
                res.fail("order", "registration %d ended before %d began but comes after it" % (x["a"]["n"], y["a"]["n"]))
    for a, items, out in held:
        if keys(items) != out:
            res.fail("result", "a list of mappings of %s changed after it was given: %s, now %s" % (TABLE[a["cls"]][0], out, keys(items)))
    for e in hist:
        a = e["a"]
        if a["do"] in ("get", "ser", "parse"):
            res.probes[a["do"]] += 1
            what = "%s of %s by thread %d" % (a["do"], TABLE[a["cls"]][0], e["k"])
            if e["exc"] is not None:
                res.fail("lookup", "%s raised %s: %s" % (what, type(e["exc"]).__name__, e["exc"]))
                continue
            seen = e["seen"]
            if a["do"] == "get" or case["own"]:
                if [x for x in seen if x not in by_name] != std[a["cls"]]:
                    res.fail("other mappings", "%s: the library's own mappings are not all there" % what)
                seen = [x for x in seen if x in by_name]
                full = True
            else:
                full = False
            for anc in TABLE[a["cls"]][2]:
                f = [x for x in final[anc] if x in plain] if a["do"] == "parse" and not case["own"] else final[anc]
                part = [x for x in seen if by_name[x]["cls"] == anc]
                ok = part == f[:len(part)] if full else sorted(part) == sorted(f[:len(part)])
                if not ok:
                    res.fail("prefix", "%s saw %s of %s, the complete list is %s" % (what, part, TABLE[anc][0], f))
                    continue
                for x in done:
                    if x["a"]["cls"] != anc:
                        continue
                    nm = key(x["a"])
                    if nm not in f:
                        continue
                    if x["end"] < e["start"] and x["exc"] is None and nm not in part:
                        res.fail("stale", "%s did not see registration %d that had returned" % (what, x["a"]["n"]))
                    if x["start"] > e["end"] and nm in part:
                        res.fail("future", "%s saw registration %d that had not begun" % (what, x["a"]["n"]))
        elif a["do"] == "op":
            ctx, out, logs, env = e["out"]
            settle(a["op"], ctx, out, env, logs, alone[e["k"], e["j"]], res)
    if case["after"]:
        env = O.Env(os.path.join(d, "t0"), be)
        env.n = 500
        op = case["after"]
        ctx = O.OPS[op["op"]].prepare(op, env)
        rt.cap.clear()
        out = O.execute(op, ctx, env)
        settle(op, ctx, out, env, list(rt.cap.of()), alone["after"], res)


def settle(op, ctx, out, env, logs, alone, res):
    dig = O.OPS[op["op"]].digest(op, ctx, out)
    bad = O.check(op, ctx, out, env, logs)
    res.note(op["op"], rt.h(dig), bad)
    res.probes["op " + op["op"]] += 1
    if dig != alone[0]:
        res.fail("differs", "%s: alone %s, here %s" % (op["op"], V.short(alone[0]), V.short(dig)))
    elif bad and not alone[1]:
        res.fail("wrong", "%s: %s" % (op["op"], bad))


def size(case):
    return sum(len(t) for t in case["threads"])


def shrink(case):
    if case["after"]:
        yield {**case, "after": None}
    ths = case["threads"]
    for k in range(len(ths)):
        if len(ths) > 1:
            yield {**case, "threads": ths[:k] + ths[k + 1:], "sched": conc.drop_thread(case["sched"], k)}
    for k in range(len(ths)):
        for j in range(len(ths[k])):
            if len(ths[k]) > 1:
                yield {**case, "threads": ths[:k] + [ths[k][:j] + ths[k][j + 1:]] + ths[k + 1:]}
