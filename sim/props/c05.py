"""Reading is independent of how bytes arrive, and read errors are never dropped."""
import errno
import os
import sys

from sim import ops as O
from sim import runtime as rt
from sim import vocab as V

ID = "C05"
LEVEL = "exploration"
WIDE = 0.02
RUNS = {"quick": 5000, "thorough": 150000}
RULE = ("one document is read 1 to 4 times through seeded sources (path, Path, binary and text files and streams, archive "
        "member), encodings (with declaration or byte order mark) and cuts of the byte stream, with both back ends, strict "
        "and lenient; some reads fail at a seeded offset (errors of streams, sockets, decompressors) or at a seeded system "
        "call (open, read, short read, EINTR), once or for good. Non-trivial: a fault fired or the stream came in more "
        "than one piece.")
DISTINCT = "hash of document, sources, cuts, offsets and outcomes"
REAL = ["fastkml reading", "lxml / xml.etree parsers", "zipfile, io", "kernel file system (scratch directory)"]
STUB = ["streams handed to the library (deliver chosen pieces, fail at chosen offset)", "libc open/read (interposed)"]
ASSUME = ["faults of a stream show as exceptions of its read method"]

STREAM_KINDS = ("EIO", "ECONNRESET", "ETIMEDOUT", "ESTALE", "ValueError", "EOFError", "zlib", "RuntimeError", "MemoryError",
                "KeyboardInterrupt", "SimTimeout", "SimExit")
ENCS = (("utf-8", None), ("utf-8", None), ("utf-8", "utf-8"), ("utf-16", "utf-16"), ("iso-8859-1", "iso-8859-1"),
        ("cp1252", "windows-1252"), ("ascii", "us-ascii"))


def gen_step(r):
    src = r.choice(("bytesio", "stringio", "sim", "sim", "sim", "buffered", "text", "text", "zip", "str", "path", "binfile", "textfile"))
    st = {"src": src, "strict": r.random() < 0.5, "validate": r.choice((None, False, False, True)), "pretty": r.random() < 0.5,
          "style": r.choice(("default", "prefix")), "backend": r.choice(("lxml", "et")),
          "pieces": [r.choice((1, 2, 3, 5, 17, 100, 1000, 32768)) for _ in range(r.choice((1, 2, 5)))]}
    if src in ("bytesio", "sim", "buffered", "zip", "str", "path", "binfile"):
        st["enc"], st["decl"] = r.choice(ENCS)
        st["bom"] = st["enc"] == "utf-8" and r.random() < 0.3
    if src in ("bytesio", "stringio", "binfile", "textfile", "buffered") and r.random() < 0.2:
        st["skip"] = r.choice((1, 20, 5000))  # the caller has already read that much of something else
    if r.random() < 0.5:
        if src in ("sim", "buffered", "text"):
            st.pop("skip", None)
            st["cut"] = [r.random() if r.random() < 0.8 else r.choice((0.0, 1.0)), r.choice(STREAM_KINDS)]
            if r.random() < 0.25:
                st["cut"].append("once")
        elif src == "zip" and r.random() < 0.5:
            st["flip"] = r.random()
        elif src in ("str", "path", "binfile", "textfile", "zip"):
            st["sys"] = r.choice(([{"on": "read", "act": "fail", "err": errno.EIO, "count": 1}],
                                  [{"on": "read", "act": "fail", "err": errno.EIO, "count": -1}],
                                  [{"on": "read", "act": "fail", "err": errno.EINTR, "count": 1}],
                                  [{"on": "read", "act": "short", "arg": r.choice((1, 7, 300)), "count": -1}],
                                  [{"on": "read", "act": "fail", "err": errno.ESTALE, "count": 1}],
                                  [{"on": "open", "act": "fail", "err": r.choice((errno.EMFILE, errno.EACCES, errno.ENOENT)),
                                    "count": -1}]))
            st["sys"][0]["nth"] = r.choice((0, 0, 1, 1, 2, 3)) if st["sys"][0]["on"] == "read" else 0
    return st


def gen(r, tier):
    return {"spec": V.gen_kml(r, O.dense(r)), "pad": r.choice((0, 0, 0, 0, 1, 3)) if r.random() > 0.015 else r.choice(("huge", "deep")), "steps": [gen_step(r) for _ in range(r.choice((1, 2, 2, 4)))]}


def padded(case):
    spec = case["spec"]
    if case["pad"] == "deep":  # more levels than an XML parser takes by default
        sys.setrecursionlimit(20000)
        feats = spec["f"]["features"]
        for k in range(255 + len(case["steps"])):
            feats = [{"c": "Folder", "f": {"features": feats}}]
        return {"c": "KML", "f": {"features": feats}} if nested_ok(spec) else spec
    if case["pad"]:
        f = spec["f"]["features"][0]
        if case["pad"] == "huge":  # a longer text than an XML parser takes by default
            if f["c"] in V.FEATURE_CLASSES:
                f["f"]["description"] = "0123456789" * 1100000 + "end"
            return spec
        if f["c"] in V.FEATURE_CLASSES:
            f["f"]["description"] = " ".join("é%x" % (k * 2654435761 % 4294967296) for k in range(6000 * case["pad"]))
    return spec


def nested_ok(spec):
    return all(x["c"] in V.FEATURE_CLASSES for x in spec["f"]["features"])


def run(case, d, res):
    spec = padded(case)
    res.trivial = True
    res.note(rt.h(spec))
    for k, st in enumerate(case["steps"]):
        dd = os.path.join(d, "s%d" % k)
        os.makedirs(dd)
        step(case, k, st, spec, dd, res)
        if res.violations:
            return
    # afterwards a plain read still works
    step(case, 99, {"src": "bytesio", "strict": True, "validate": None, "backend": "lxml", "pieces": [1]}, spec,
         os.path.join(d, "s0"), res)


def step(case, k, st, spec, dd, res):
    from fastkml import KML
    rt.set_backend(st["backend"])
    env = O.Env(dd, st["backend"])
    op = {"spec": spec, **{x: st[x] for x in ("src", "pretty", "style", "enc", "decl", "bom", "pieces", "skip") if x in st}}
    if case["pad"] == "huge":
        op["pieces"] = [max(65536, x) for x in op["pieces"]]
    if st.get("cut"):
        n = len(O.render_op(op).encode(st.get("enc", "utf-8"), "xmlcharrefreplace")) if st["src"] != "text" else len(O.render_op(op))
        op["fault"] = [min(int(st["cut"][0] * (n + 1)), n), *st["cut"][1:]]
    src = O.parse_source(op, env, "doc")
    if "flip" in st:
        # a damaged archive: the checksum does not match, which shows when the last byte is read
        p = os.path.join(dd, "doc.kmz")
        with open(p, "r+b") as f:
            b = bytearray(f.read())
            i = b.rindex(b"PK\x01\x02") + 16
            b[i] ^= 0x55
            f.seek(0)
            f.write(b)
        for z in env.keep:
            z.close()
        import zipfile
        try:
            z = zipfile.ZipFile(p)
            env.keep = [z]
            src = z.open("doc.kml")
        except Exception:  # noqa: BLE001
            return
    rules = st.get("sys") or []
    exc = got = None
    rt.arm(dd, rules)
    try:
        got = KML.parse(src, strict=st["strict"], validate=st["validate"])
    except BaseException as e:  # noqa: BLE001
        exc = e
    finally:
        fired = rt.disarm(rules)
    hard = bool(getattr(getattr(src, "raw", src), "fired", False))
    for r, f in zip(rules, fired):
        if f:
            res.faults["%s %s %s" % (r["act"], r["on"], errno.errorcode.get(r.get("err"), ""))] += 1
            if r["act"] == "fail" and r["err"] != errno.EINTR:
                hard = True
    if op.get("fault") and hard:
        res.faults["stream " + op["fault"][1]] += 1
    if "flip" in st:
        hard = True
        res.faults["checksum error in archive"] += 1
    calls = getattr(getattr(src, "raw", src), "calls", 0)
    if hard or calls > 2 or any(fired):
        res.trivial = False
    res.steps += calls + rt.shim.sim_nevents()
    what = "step %d: %s" % (k, {x: st[x] for x in st if x not in ("pretty", "style")})
    res.note(k, sorted(st.items(), key=str), type(exc).__name__, calls, fired)
    if exc is not None:
        if not hard:
            eintr = any(f and r.get("err") == errno.EINTR for r, f in zip(rules, fired))
            if not eintr:
                res.fail("rejected", "%s: raised %s: %s" % (what, type(exc).__name__, exc))
        else:
            res.probes["fault raised"] += 1
    else:
        bad = V.same(spec, V.summarize(got))
        if bad:
            res.fail("lost rest" if hard or any(fired) else "different", "%s: %s" % (what, bad))
        elif hard:
            res.probes["fault survived, document complete"] += 1
    if hasattr(src, "closed") and src.closed and "fault" not in op:
        res.fail("closed", "%s: the stream of the caller was closed" % what)
    env.close()


def size(case):
    return len(case["steps"])


def shrink(case):
    st = case["steps"]
    for i in range(len(st)):
        if len(st) > 1:
            yield {**case, "steps": st[:i] + st[i + 1:]}
    if case["pad"]:
        yield {**case, "pad": 0}
    for s in V.shrinks(case["spec"]):
        yield {**case, "spec": s}
    for i in range(len(st)):
        for kk in ("sys", "cut", "flip", "enc", "decl", "bom"):
            if kk in st[i]:
                yield {**case, "steps": st[:i] + [{x: y for x, y in st[i].items() if x != kk}] + st[i + 1:]}
