"""Durability of KML.write under I/O faults and crashes."""
import errno
import io
import os
import pathlib
import zipfile

from sim import ops as O
from sim import runner
from sim import runtime as rt
from sim import vocab as V

ID = "C03"
LEVEL = "exploration"
WIDE = 0.02
RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("1 to 3 writes to one or two .kml/.kmz targets in a scratch directory with prior content and neighbour files; per "
        "write the file operations are first counted in a fault-free twin process, then one or two faults (failing open, "
        "write, close with one of several errors, short write, full disk after n bytes, failure after the effect) or a "
        "process death (before, after, in the middle of an operation) are placed at a seeded operation. "
        "Non-trivial: a fault fired or the process died.")
DISTINCT = "hash of the sequence of file operations with results, faults and the observed file states"
REAL = ["fastkml.kml.KML.write and all serialisation", "zipfile", "CPython io", "kernel file system (scratch directory)",
        "fastkml reading for read-back"]
STUB = ["libc open/read/write/close/fsync/rename/unlink (interposed: fail, shorten, die)", "wall clock (fixed)"]
ASSUME = ["the process dies, the operating system does not: data handed to the kernel survives",
          "file access of the library goes through libc"]

ERR = {"open": ("EACCES", "ENOSPC", "EMFILE", "EROFS", "EIO", "EINTR"), "write": ("ENOSPC", "EIO", "EDQUOT", "EFBIG", "EINTR"),
       "close": ("EIO", "ENOSPC", "EDQUOT"), "sync": ("EIO", "ENOSPC"), "trunc": ("EIO",), "rename": ("EIO", "EACCES"),
       "unlink": ("EACCES",), "read": ("EIO",)}


def gen_fault(r):
    k = r.random()
    at = r.random() if r.random() < 0.75 else 0.9999
    if k < 0.40:
        return {"act": "fail", "at": at, "err": r.random(), "count": r.choice((1, 1, 1, -1))}
    if k < 0.47:
        return {"act": "fail", "at": at, "err": r.random(), "count": 1, "only": r.choice(("write", "close", "open"))}
    if k < 0.58:
        return {"act": "short", "at": at, "arg": r.choice((0.0, 0.3, 0.9)), "only": "write", "count": r.choice((1, -1))}
    if k < 0.75:
        return {"act": "quota", "arg": r.random()}
    return {"act": r.choice(("crash_before", "crash_after", "crash_torn", "crash_torn")), "at": at, "arg": r.random(), "count": 1}


def gen(r, tier):
    specs = [V.gen_kml(r, r.choice((0.03, 0.1, 0.3))) for _ in range(r.choice((1, 2)))]
    names = r.sample(["out.kml", "out.kmz", "b.KML", "c.xml", "d.kmz", "out"], r.choice((1, 1, 2)))
    if r.random() < 0.5:
        names[0] = r.choice(("out.kmz", "out.kml"))
    prior = {n: r.choice((None, "old", "long", "doc")) for n in names}
    steps = []
    for _ in range(r.choice((1, 1, 2, 3))):
        steps.append({"spec": r.randrange(len(specs)), "to": r.choice(names), **O.out_opts(r),
                      "faults": [gen_fault(r) for _ in range(r.choice((0, 1, 1, 1, 1, 2)))]})
    return {"backend": r.choice(("lxml", "lxml", "et")), "specs": specs, "prior": prior, "steps": steps,
            "pad": r.choice((0, 0, 0, 1, 3)), "built": r.random() < 0.7}


def make(case, i):
    from fastkml import KML
    spec = case["specs"][i]
    if case["pad"]:
        # a long description: several buffers of output
        f = spec["f"]["features"][0]
        if f["c"] in V.FEATURE_CLASSES:
            f["f"]["description"] = "".join("%x " % (k * 2654435761 % 4294967296) for k in range(4000 * case["pad"])).strip()
    if case["built"]:
        return V.build(spec), spec
    d = KML.parse(io.BytesIO(V.render(spec).encode("utf-8")), validate=False)
    return d, V.regroup(spec, V.summarize(d))


def prior_bytes(case, name):
    k = case["prior"][name]
    if k is None:
        return None
    text = {"old": "<kml>previous version</kml>", "long": "<kml>" + "previous version " * 9000 + "</kml>",
            "doc": V.render({"c": "KML", "f": {"features": [{"c": "Placemark", "f": {"name": "previous"}}]}})}[k]
    if name.endswith(".kmz"):
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w", zipfile.ZIP_STORED) as z:
            z.writestr("doc.kml", text)
        return b.getvalue()
    return text.encode()


def view(path):
    """("absent"|"text"|"broken", text or bytes) of what a reader of the file gets."""
    if not os.path.exists(path):
        return "absent", None
    with open(path, "rb") as f:
        data = f.read()
    if not path.endswith(".kmz"):
        return "text", data
    try:
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            return "text", z.read("doc.kml")
    except Exception as e:  # noqa: BLE001
        return "broken", type(e).__name__


def listing(d):
    out = {}
    for n in sorted(os.listdir(d)):
        with open(os.path.join(d, n), "rb") as f:
            out[n] = f.read()
    return out


def rules_for(faults, evs):
    rules = []
    total = sum(max(0, e[2]) for e in evs if e[0] == "write")
    for f in sorted(faults, key=lambda x: x["act"] != "quota"):
        if f["act"] == "quota":
            rules.append({"on": "write", "act": "quota", "arg": int(f["arg"] * (total + 1)), "err": errno.ENOSPC})
            continue
        only = f.get("only")
        cand = [(k, e) for k, e in enumerate(evs) if e[0] != "seek" and (not only or e[0] == only)]
        if not cand:
            continue
        j = min(int(f["at"] * len(cand)), len(cand) - 1)
        op = cand[j][1][0]
        rule = {"act": f["act"], "count": f.get("count", 1)}
        if f.get("count") == -1:
            rule["on"] = op
            rule["nth"] = sum(1 for _, e in cand[:j] if e[0] == op)
        else:
            rule["on"] = only or "any"
            rule["nth"] = j
        rule["op"] = op
        if f["act"] in ("fail", "fail_after"):
            names = ERR.get(op, ("EIO",))
            name = names[int(f["err"] * len(names))]
            if name == "EINTR" and f.get("count") == -1:
                name = "EIO"
            rule["err"] = getattr(errno, name)
            rule["name"] = name
        elif f["act"] == "short":
            rule["arg"] = int(f["arg"] * cand[j][1][1])
        elif f["act"] == "crash_torn":
            rule["arg"] = int(f["arg"] * max(0, cand[j][1][1])) if op == "write" else 0
        rules.append(rule)
    return rules


def run(case, d, res):
    rt.set_backend(case["backend"])
    rt.shim.sim_clock(1, 1.7e9, 0.0)
    work = os.path.join(d, "w")
    os.makedirs(work)
    for n in case["prior"]:
        b = prior_bytes(case, n)
        if b is not None:
            with open(os.path.join(work, n), "wb") as f:
                f.write(b)
    near = {"other.kml", "zz.kmz"}
    for n in case["prior"]:
        stem = n.rsplit(".", 1)[0]
        near |= {x % y for y in (n, stem) for x in ("%s~", "%s.bak", "%s.tmp", "%s.part", "%s.new", ".%s.tmp", "%s.swp", "tmp%s", "~%s")}
        near |= {"doc.kml", "tmp", stem + ".xml"}
    for n in sorted(near - set(case["prior"])):
        with open(os.path.join(work, n), "wb") as f:
            f.write(b"neighbour " + n.encode())
    docs = [make(case, i) for i in range(len(case["specs"]))]
    res.trivial = True
    for k, st in enumerate(case["steps"]):
        step(case, k, st, docs[st["spec"]], work, os.path.join(d, "dry%d" % k), res)
        if res.violations:
            return


def step(case, k, st, docspec, work, dry, res):
    doc, spec = docspec
    target = os.path.join(work, st["to"])
    kw = O.kw_opts(st)
    kmz = st["to"].endswith(".kmz")

    def twin():
        os.makedirs(dry)
        p = os.path.join(dry, st["to"])
        rt.arm(os.path.dirname(dry), [])
        try:
            doc.write(pathlib.Path(p), **kw)
        except Exception as e:  # noqa: BLE001
            return ["raised %s: %s" % (type(e).__name__, e), None, None]
        finally:
            rt.disarm()
        kind, data = view(p)
        return [kind, data.decode("utf-8") if kind == "text" else data, rt.events()]
    stt, val = runner.fork_call(twin)
    if stt != "ok" or val[0] != "text":
        res.fail("healthy write", "step %d: writing %s on a healthy disk: %s %s" % (k, st["to"], stt, val))
        return
    full, evs = val[1].encode("utf-8"), val[2]
    bad = V.diff_xml(V.tree(spec, st["prec"], st["verb"]), full.decode("utf-8"))
    if bad:
        res.fail("content", "step %d: %s does not hold the document: %s" % (k, st["to"], bad))
        return
    rules = rules_for(st["faults"], evs)
    before = listing(work)
    crash = any(r["act"].startswith("crash") for r in rules)
    exc = None
    died = False
    if crash:
        def doomed():
            rt.arm(os.path.dirname(work), rules)
            try:
                doc.write(pathlib.Path(target), **kw)
            except Exception as e:  # noqa: BLE001
                rt.disarm()
                return [type(e).__name__, [rt.shim.sim_fired(i) for i in range(len(rules))], rt.events()]
            rt.disarm()
            return [None, [rt.shim.sim_fired(i) for i in range(len(rules))], rt.events()]
        stt, val = runner.fork_call(doomed)
        died = stt == "exit" and val == 137
        if not died and stt != "ok":
            raise RuntimeError("crash run: %s %s" % (stt, val))
        fired, evs2 = ([0] * len(rules), []) if died else val[1:]
        raised = True if died else val[0] is not None
        if died:
            act = next(r for r in rules if r["act"].startswith("crash"))
            res.faults["%s %s" % (act["act"], act["op"])] += 1
    else:
        rt.arm(os.path.dirname(work), rules)
        n = 0
        try:
            doc.write(pathlib.Path(target), **kw)
        except Exception as e:  # noqa: BLE001
            n = rt.shim.sim_open_fds()
            exc = "%s: %s" % (type(e).__name__, e)
        finally:
            fired = rt.disarm(rules)
        raised = exc is not None
        evs2 = rt.events()
        res.steps += len(evs2)
        res.note(k, evs2, exc)
        n = n or rt.shim.sim_open_fds()
        if n:
            res.fail("leak", "step %d: %d file handles stay open after %s" % (k, n, exc or "a successful write"))
    for r, f in zip(rules, fired):
        if f:
            res.faults[("%s %s %s" % (r["act"], r.get("op", "write"), r.get("name", ""))).strip()] += 1
    hit = died or any(fired)
    refused = {(e[0], errno.errorcode.get(e[3])) for e in evs2 if e[2] < 0 <= e[4]}
    if hit:
        res.trivial = False
    what = "step %d: %s, faults %s" % (k, st["to"], [dict(r, fired=f) for r, f in zip(rules, fired)])
    # the neighbours
    now = listing(work)
    for n, b in before.items():
        if n != st["to"] and now.get(n) != b:
            res.fail("neighbour", "%s: %s was changed" % (what, n))
    more = sorted(set(now) - set(before) - {st["to"]})
    if more and not died and not any(op == "unlink" for op, _ in refused):
        res.fail("left over", "%s: %s left behind after %s" % (what, more, exc or "a successful write"))
    # the target
    kind, data = view(target)
    res.note(k, kind, rt.h(data), raised, died)
    old = before.get(st["to"])
    if raised:
        if not hit:
            res.fail("spurious error", "%s: raised %s without a fault" % (what, exc))
        same_as_old = (kind == "absent" and old is None) or (old is not None and os.path.exists(target) and now[st["to"]] == old)
        if same_as_old:
            res.probes["after failure: old"] += 1
        elif kind == "text" and data == full:
            res.probes["after failure: complete"] += 1
        elif kmz and kind == "broken":
            res.probes["after failure: unreadable kmz"] += 1
        elif not kmz and kind == "text" and full.startswith(data):
            res.probes["after failure: cut off"] += 1
        else:
            res.fail("garbage", "%s: the target now reads as neither the old nor a part of the new content: %s %r" % (
                what, kind, (data or b"")[:200]))
    else:
        if any(op in ("write", "close", "sync") and err != "EINTR" for op, err in refused):
            res.fail("swallowed", "%s: the write returned normally" % what)
        if kind != "text" or data != full:
            res.fail("lost", "%s: the write returned, but the file holds %s %r" % (what, kind, (data or b"")[:120]))
    if res.violations:
        return
    # once the fault is gone, the same write works
    if raised:
        rt.arm(os.path.dirname(work), [])
        try:
            doc.write(pathlib.Path(target), **kw)
        except Exception as e:  # noqa: BLE001
            res.fail("no recovery", "%s: the retry raised %s: %s" % (what, type(e).__name__, e))
            return
        finally:
            rt.disarm()
        kind, data = view(target)
        if kind != "text" or data != full:
            res.fail("no recovery", "%s: after the retry the file holds %s %r" % (what, kind, (data or b"")[:120]))
            return
    # read back
    from fastkml import KML
    if kmz:
        with zipfile.ZipFile(target) as z, z.open("doc.kml") as f:
            got = KML.parse(f, validate=False)
    else:
        got = KML.parse(target, validate=False)
    bad = V.same(V.after_write(spec, st["prec"], st["verb"]), V.summarize(got))
    if bad:
        res.fail("read back", "%s: %s" % (what, bad))


def size(case):
    return len(case["steps"])


def shrink(case):
    st = case["steps"]
    for i in range(len(st)):
        if len(st) > 1:
            yield {**case, "steps": st[:i] + st[i + 1:]}
    for i in range(len(st)):
        for j in range(len(st[i]["faults"])):
            yield {**case, "steps": st[:i] + [{**st[i], "faults": st[i]["faults"][:j] + st[i]["faults"][j + 1:]}] + st[i + 1:]}
    if case["pad"]:
        yield {**case, "pad": 0}
    for n, p in case["prior"].items():
        if p:
            yield {**case, "prior": {**case["prior"], n: None}}
    for i, s in enumerate(case["specs"]):
        for s2 in V.shrinks(s):
            yield {**case, "specs": case["specs"][:i] + [s2] + case["specs"][i + 1:]}
    for i in range(len(st)):
        for kk, v in (("prec", None), ("verb", "normal"), ("pp", False)):
            if st[i][kk] != v:
                yield {**case, "steps": st[:i] + [{**st[i], kk: v}] + st[i + 1:]}
