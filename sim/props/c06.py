"""Damaged stored values: strict reading refuses, lenient reading loses only them."""
import os

from sim import ops as O
from sim import runtime as rt
from sim import vocab as V

ID = "C06"
LEVEL = "exploration"
WIDE = 0.01
RUNS = {"quick": 14000, "thorough": 400000}
RULE = ("a generated document (or one of its elements) is stored and 1 to 6 of its typed values are damaged (bits of the "
        "text replaced, cut, doubled, out of range), then read strictly and leniently in a seeded order, interleaved with "
        "reads of the intact text, with both back ends. Strict must raise the parse error, lenient must give the document "
        "without exactly those values. Non-trivial: at least one value was damaged.")
DISTINCT = "hash of document, damaged places, damage and outcomes"
REAL = ["fastkml reading", "lxml / xml.etree parsers", "arrow, pygeoif"]
STUB = ["the stored text (rendered by the reference vocabulary and damaged)"]
ASSUME = ["the damage keeps the XML well formed; torn files are the subject of C07"]


def gen(r, tier):
    spec = V.gen_kml(r, r.choice((0.1, 0.3, 0.6, 0.9)), valid=False)
    whole = r.random() < 0.5
    if not whole:
        subs = O.subspecs(spec)
        if subs:
            spec = r.choice(subs)
    rounds = []
    for _ in range(r.choice((1, 2, 3, 5))):
        rounds.append({"hits": O.gen_hits(r, spec, r.choice((1, 1, 2, 6))) if r.random() < 0.85 else [],
                       "strict": r.random() < 0.5, "backend": r.choice(("lxml", "et")), "pretty": r.random() < 0.5,
                       "how": r.choice(("from_string", "parse")) if spec["c"] == "KML" else "from_string",
                       "validate": r.choice((None, False))})
    return {"spec": spec, "rounds": rounds}


def run(case, d, res):
    env = O.Env(d)
    spec = case["spec"]
    res.note(rt.h(spec))
    res.trivial = True
    for k, rd in enumerate(case["rounds"]):
        one_round(k, spec, rd, env, res)
        if res.violations:
            return
    one_round(98, spec, {"hits": [], "strict": True, "backend": "lxml", "pretty": True, "how": "from_string"}, env, res)


def one_round(k, spec, rd, env, res):
    from fastkml import KML
    rt.set_backend(rd["backend"])
    op = {"spec": spec, "hits": rd["hits"], "pretty": rd["pretty"]}
    text = O.render_op(op)
    for hh in rd["hits"]:
        res.faults["damaged " + (hh[2] if hh[2] != "track" else "track " + hh[3][0])] += 1
        res.trivial = False
    exc = got = None
    validating = False
    try:
        if rd["how"] == "parse":
            p = os.path.join(env.dir, "doc.kml")
            with open(p, "w", encoding="utf-8") as f:
                f.write(text)
            val = rd.get("validate")
            if rd["strict"] and val is None and rd["backend"] == "lxml":
                validating = True
            got = KML.parse(p, strict=rd["strict"], validate=val)
        else:
            got = V.lib(spec["c"]).from_string(text, strict=rd["strict"])
    except Exception as e:  # noqa: BLE001
        exc = e
    res.steps += 1
    what = "round %d (%s, %s, %s), damaged %s" % (k, "strict" if rd["strict"] else "lenient", rd["backend"], rd["how"],
                                                  [[hh[1], hh[2], hh[4]] for hh in rd["hits"]])
    res.note(what, type(exc).__name__)
    if rd["hits"] and rd["strict"]:
        if exc is None:
            res.fail("accepted", "%s: accepted" % what)
        elif type(exc).__name__ != "KMLParseError" and not (validating and isinstance(exc, AssertionError)):
            res.fail("other error", "%s: raised %s: %s" % (what, type(exc).__name__, exc))
        return
    if exc is not None:
        if validating and isinstance(exc, AssertionError):
            res.probes["rejected by the schema"] += 1  # several features below <kml>: not schema valid
            return
        res.fail("refused", "%s: raised %s: %s" % (what, type(exc).__name__, exc))
        return
    exp = O.apply_damage(spec, rd["hits"])[1] if rd["hits"] else spec
    bad = V.same(exp, V.summarize(got))
    if bad:
        res.fail("wrong", "%s: %s" % (what, bad))


def size(case):
    return len(case["rounds"])


def shrink(case):
    rs = case["rounds"]
    for i in range(len(rs)):
        if len(rs) > 1:
            yield {**case, "rounds": rs[:i] + rs[i + 1:]}
    for i in range(len(rs)):
        for j in range(len(rs[i]["hits"])):
            if len(rs[i]["hits"]) > 1:
                yield {**case, "rounds": rs[:i] + [{**rs[i], "hits": rs[i]["hits"][:j] + rs[i]["hits"][j + 1:]}] + rs[i + 1:]}
    for s in V.shrinks(case["spec"]):
        try:
            if all(O.hits_fit(s, hh) for rd in rs for hh in rd["hits"]):
                yield {**case, "spec": s}
        except (KeyError, IndexError, TypeError):
            continue
