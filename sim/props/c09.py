"""Histories of XML back end switches."""
import io
import os
import re

from sim import conc
from sim import inject
from sim import ops as O
from sim import runtime as rt
from sim import vocab as V
from sim.props import c02
from sim.props import c08

ID = "C09"
LEVEL = "exploration"
WIDE = 0.004
RUNS = {"quick": 8000, "thorough": 120000}
RULE = ("a history of 3 to 14 steps: switching the back end (with or without registering the name space prefixes, possibly to "
        "the one in use), catalogue operations on new documents and on documents created earlier under either back end, "
        "reading back text written earlier under either back end, stepping a search that was started before a switch, "
        "clearing the schema cache, failing reads and interrupted calls. Every outcome is compared with the specification of "
        "the document it works on. Non-trivial: at least two switches that change the back end.")
DISTINCT = "hash of the steps and their outcomes"
REAL = ["fastkml (all modules)", "lxml", "xml.etree.ElementTree", "files in a scratch directory"]
STUB = ["input streams (sometimes)", "the source of interruptions"]
ASSUME = ["no call is running in another thread at the moment of a switch"]
ALL = {"types": O.FIND_TYPES, "attrs": {}}


def gen(r, tier):
    steps, docs = [], []
    for _ in range(r.choice((3, 5, 8, 14))):
        k = r.random()
        if k < 0.35:
            steps.append({"do": "switch", "to": r.choice(("lxml", "et")), "reg": r.random() < 0.8,
                          "clear": r.random() < 0.1})
        elif k < 0.47:
            spec = V.gen_kml(r, O.dense(r))
            nlc = any(s["c"] == "NetworkLinkControl" for _, s in V.walk(spec))
            docs.append(spec)
            steps.append({"do": "new", "spec": spec, "origin": "build" if nlc else r.choice(("build", "parse", "string"))})
        elif k < 0.57:
            steps.append({"do": "reread", "pick": r.random(), "how": r.choice(("string", "bytes")),
                          "strict": r.random() < 0.7})
        elif k < 0.62:
            steps.append({"do": "search", "pick": r.random(), "n": r.randint(0, 6)})
        else:
            st = {"do": "op", "hit": {"at": r.random(), "kind": r.choice(c08.KINDS[:-1]), "calls": True}
                  if r.random() < 0.12 else None}
            if docs and r.random() < 0.5:
                i = r.randrange(len(docs))
                st.update(op=O.gen_op(r, O.SHARED, True, docs[i]), doc=i)
            else:
                st.update(op=O.OPS[r.choice(("validate", "validate_bad"))].gen(r) if r.random() < 0.2 else O.gen_op(r), doc=None)
            steps.append(st)
    return {"start": r.choice(("lxml", "lxml", "et")), "steps": steps}


def run(case, d, res):
    from fastkml import KML
    from fastkml import config
    from fastkml import validator
    refs = references(case, d)
    rt.set_backend(case["start"])
    be = case["start"]
    docs, texts, search = [], [], None
    switches = 0
    hist = [be]
    for n, st in enumerate(case["steps"]):
        res.steps += 1
        do = st["do"]
        res.note(n, do, rt.h(st))
        when = "step %d (%s, back ends so far %s)" % (n, do, " ".join(hist))
        if do == "switch":
            switches += st["to"] != be
            be = st["to"]
            rt.set_backend(be, st["reg"])
            hist.append(be)
            if st["clear"]:
                validator.get_schema_parser.cache_clear()
            res.faults["switch"] += 1
            want = {"lxml": "lxml.etree", "et": "xml.etree.ElementTree"}[be]
            if config.etree.__name__ != want:
                res.fail("not switched", "%s: the back end is %s" % (when, config.etree.__name__))
                return
            continue
        if do == "new":
            doc = c02.make_doc({"origin": st["origin"], "spec": st["spec"]})
            got = V.summarize(doc)
            spec = st["spec"] if st["origin"] == "build" else V.regroup(st["spec"], got)
            docs.append((doc, spec, "%s under %s" % (st["origin"], be)))
            bad = V.same(spec, got)
            if bad:
                res.fail("content", "%s: %s" % (when, bad))
            continue
        if do == "reread":
            if not texts:
                continue
            text, spec, who = texts[int(st["pick"] * len(texts))]
            try:
                if st["how"] == "string":
                    got = KML.from_string(text, strict=st["strict"])
                else:
                    got = KML.parse(io.BytesIO(text.encode("utf-8")), strict=st["strict"], validate=False)
            except Exception as e:  # noqa: BLE001
                res.fail("unreadable", "%s: text written under %s: %s: %s" % (when, who, type(e).__name__, e))
                continue
            s = V.summarize(got)
            bad = V.same(V.regroup(spec, s), s)
            if bad:
                res.fail("content", "%s: text written under %s: %s" % (when, who, bad))
            res.probes["reread %s to %s" % (who, be)] += 1
            continue
        if do == "search":
            if search is None:
                if not docs:
                    continue
                from fastkml.utils import find_all
                doc, spec, _ = docs[int(st["pick"] * len(docs))]
                search = [find_all(doc, **O.find_kwargs(ALL)), [], doc, spec]
            for _ in range(st["n"]):
                try:
                    search[1].append(next(search[0]))
                except StopIteration:
                    bad = O.find_check(search[2], search[3], ALL, search[1])
                    if bad:
                        res.fail("search", "%s: %s" % (when, bad))
                    search = None
                    break
            continue
        op = st["op"]
        dd = os.path.join(d, "d%d" % n)
        os.makedirs(dd)

        def fresh():
            env = O.Env(dd, be)  # noqa: B023
            env.n = 100 * len(os.listdir(dd))  # noqa: B023
            if st["doc"] is not None and st["doc"] < len(docs):  # noqa: B023
                env.shared, env.shared_spec, _ = docs[st["doc"]]  # noqa: B023
            return env
        env = fresh()
        if op.get("shared") and env.shared is None:
            continue
        ctx = O.OPS[op["op"]].prepare(op, env)
        if st["hit"]:
            st_, k = c08.runner.fork_call(lambda: counted(op, ctx, env, st["hit"]["at"]))  # noqa: B023
            inj = inject.Injector(k if st_ == "ok" and k is not None else -1, st["hit"]["kind"], True)
            with inj:
                try:
                    O.OPS[op["op"]].run(op, ctx, env)
                except BaseException:  # noqa: BLE001, S110
                    pass
            res.faults["interrupted"] += inj.exc is not None
            env = fresh()
            ctx = O.OPS[op["op"]].prepare(op, env)
        rt.cap.clear()
        out = O.execute(op, ctx, env)
        bad = O.check(op, ctx, out, env, list(rt.cap.of()))
        res.note(n, op["op"], be, rt.h(st), bad)
        res.probes["%s under %s" % (op["op"], be)] += 1
        if bad:
            made = " on a document from %s" % docs[st["doc"]][2] if op.get("shared") else ""
            res.fail("wrong", "%s: %s%s: %s" % (when, op["op"], made, bad))
            return
        if n in refs and isinstance(out, O.Ok):
            # the text itself, apart from prefixes (which belong to the registered name spaces)
            ref = refs[n]
            here = O.OPS[op["op"]].digest(op, ctx, out)
            if plain(ref[0]) != plain(here):
                res.fail("text", "%s: %s gives another text than in a process that never switched: %s, here %s" % (
                    when, op["op"], V.short(plain(ref[0])), V.short(plain(here))))
                return
            res.probes["text compared"] += 1
        if isinstance(out, O.Ok) and op["op"] in ("to_string", "write", "build"):
            text = {"to_string": lambda: out.value, "write": lambda: ctx.get("text"), "build": lambda: out.value[1]}[op["op"]]()  # noqa: B023
            spec = env.shared_spec if op.get("shared") else op["spec"]
            p, v = (None, "normal") if op.get("how") == "str" else (op["prec"], op["verb"])
            if text and not any(x["c"] == "NetworkLinkControl" for _, x in V.walk(spec)):
                texts.append((text, V.after_write(spec, p, v), be))
    for doc, spec, who in docs:
        bad = V.same(spec, V.summarize(doc))
        if bad:
            res.fail("changed", "the document from %s changed: %s" % (who, bad))
    res.trivial = switches < 2


TEXTS = ("to_string", "part", "write", "build", "mutate")


def references(case, d):
    """The texts that some of the steps under lxml give in a process that never switched."""
    be, origins, out = case["start"], [], {}
    for n, st in enumerate(case["steps"]):
        if st["do"] == "switch":
            be = st["to"]
        elif st["do"] == "new":
            origins.append({"origin": st["origin"], "spec": st["spec"]})
        elif st["do"] == "op" and be == "lxml" and st["op"]["op"] in TEXTS and (st["op"].get("pp") or n % 4 == 0):
            o = st["doc"] if st["op"].get("shared") else None
            if o is None or o < len(origins):
                out[n] = conc.solo(st["op"], be, os.path.join(d, "s%d" % n), c02.origin(origins[o]) if o is not None else None)
    return out


def plain(text):
    text = re.sub(r'\sxmlns(:\w+)?="[^"]*"', "", text)
    return re.sub(r"(</?)\w+:", r"\1", text)


def counted(op, ctx, env, x):
    with inject.Injector(calls=True) as i:
        O.execute(op, ctx, env)
    return i.choose(x)


def size(case):
    return len(case["steps"])


def shrink(case):
    st = case["steps"]
    for size in (8, 4, 2, 1):
        for i in range(0, len(st), size):
            if len(st) > size and not any(s["do"] == "new" for s in st[i:i + size]):
                yield {**case, "steps": st[:i] + st[i + size:]}
    if st and st[-1]["do"] == "new":
        yield {**case, "steps": st[:-1]}
    for i, s in enumerate(st):
        if s.get("hit"):
            yield {**case, "steps": st[:i] + [{**s, "hit": None}] + st[i + 1:]}
        if s["do"] == "op":
            for o in O.shrink_op(s["op"]):
                yield {**case, "steps": st[:i] + [{**s, "op": o}] + st[i + 1:]}
        if s["do"] == "new":
            for x in V.shrinks(s["spec"]):
                yield {**case, "steps": st[:i] + [{**s, "spec": x}] + st[i + 1:]}
