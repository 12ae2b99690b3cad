"""Seeded search: runs many simulated executions, minimises and reports failures."""
import collections
import gc
import importlib
import json
import os
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from sim import conc
from sim import runtime as rt
from sim import vocab as V

VERIF = os.path.dirname(rt.HERE)
RUN_TIMEOUT = 90
WALL = {"quick": 240, "thorough": 3300}
MIN_WALL = 75
REAL_TIME = time.monotonic


class Result:
    """What one simulated execution did."""

    def __init__(self):
        self.violations = []
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.steps = 0
        self.simtime = 0.0
        self.key = None
        self.log = []
        self.trace = None
        self.trivial = False

    def fail(self, cls, msg):
        self.violations.append([cls, str(msg)[:2000]])

    def note(self, *parts):
        self.log.append(" ".join(str(p)[:400] for p in parts))

    def out(self):
        key = self.key if self.key is not None else "\n".join(self.log)
        return {"v": self.violations, "faults": self.faults, "probes": self.probes, "steps": self.steps,
                "simtime": self.simtime, "key": "%x" % rt.h(key), "trivial": self.trivial,
                "log": "%x" % rt.h("\n".join(self.log)), "trace": self.trace if self.violations else None}


class ForkError(Exception):
    pass


def fork_call(fn, timeout=RUN_TIMEOUT, scratch=None):
    """Run fn() in a forked child; (status, value): "ok", "exit" (code) or "timeout"."""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            rt.die_with_parent()
            gc.disable()
            out = json.dumps(fn()).encode()
            with os.fdopen(wfd, "wb") as f:
                f.write(out)
        except BaseException:  # noqa: BLE001
            code = 3
            try:
                os.write(wfd, json.dumps(traceback.format_exc()[-3000:]).encode())
            except OSError:
                pass
        finally:
            os._exit(code)
    os.close(wfd)
    return _collect(pid, rfd, timeout)


def _collect(pid, rfd, timeout):
    end = REAL_TIME() + timeout
    buf = []
    while True:
        left = end - REAL_TIME()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(rfd)
            return "timeout", None
        if select.select([rfd], [], [], min(left, 5))[0]:
            b = os.read(rfd, 1 << 16)
            if not b:
                break
            buf.append(b)
    os.close(rfd)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    if code == 3 and buf:
        return "exc", json.loads(b"".join(buf))
    if code != 0:
        return "exit", code
    return "ok", json.loads(b"".join(buf))


def one(prop, case, scratch):
    """Body of one simulated execution (inside a forked child)."""
    res = Result()
    os.makedirs(os.path.join(scratch, "tmp"), exist_ok=True)
    os.environ["TMPDIR"] = tempfile.tempdir = os.path.join(scratch, "tmp")
    try:
        prop.run(case, scratch, res)
    except conc.Stopped:
        return res.out()
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        files = {f.filename for f in tb}
        names = {f.name for f in tb}
        if any(f.startswith(rt.LIB) for f in files) or names & {"summarize", "diff_xml", "read_back", "pairs"}:
            res.fail("observation", "looking at the result failed: %s: %s\n%s" % (
                type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-4:])))
        else:
            return {"error": traceback.format_exc()}
    return res.out()


def execute(prop, case, base, tag):
    d = os.path.join(base, "run-%s" % tag)
    try:
        st, val = fork_call(lambda: one(prop, case, d))
        if st == "timeout":
            shutil.rmtree(d, ignore_errors=True)
            st, val = fork_call(lambda: one(prop, case, d), timeout=2 * RUN_TIMEOUT)
            if st == "timeout":
                return {"v": [["hang", "the execution did not finish within %d s (twice)" % RUN_TIMEOUT]], "faults": {},
                        "probes": {}, "steps": 0, "simtime": 0, "key": "hang", "trivial": False, "log": "", "trace": None}
        if st != "ok":
            return {"error": "the simulated process ended with code %s" % val}
        return val
    finally:
        shutil.rmtree(d, ignore_errors=True)


def case_of(prop, vseed, i, tier):
    seed = rt.h(vseed, prop.ID, i)
    r = random.Random(seed)
    r.pool, r.reuse = {}, r.choice((0, 0, 0.2, 0.6))
    r.focus = r.choice(V.FOCI) if r.random() < 0.3 else None
    r.void = r.choice(getattr(prop, "VOID", (0,)))
    r.wide, r.deep = getattr(prop, "WIDE", 0), getattr(prop, "DEEP", 0)
    return seed, prop.gen(r, tier)


def worker(prop, vseed, tier, todo, base, wid, wfd, wall):
    start = REAL_TIME()
    with os.fdopen(wfd, "w") as out:
        for i in todo:
            if REAL_TIME() - start > wall:
                break
            seed, case = case_of(prop, vseed, i, tier)
            t = REAL_TIME()
            r = execute(prop, case, base, "%d-%d" % (wid, i))
            if "error" in r:        # memory, processes: does it happen again?
                r = execute(prop, case, base, "%d-%d-again" % (wid, i))
            r["i"], r["took"] = i, REAL_TIME() - t
            r["size"] = prop.size(case) if hasattr(prop, "size") else None
            out.write(json.dumps(r) + "\n")
            out.flush()


def campaign(prop, vseed, tier, n, base, workers, wall):
    pipes = {}
    pids = []
    for w in range(workers):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                rt.die_with_parent()
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                worker(prop, vseed, tier, range(w, n, workers), base, w, wfd, wall)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                os._exit(4)
            os._exit(0)
        os.close(wfd)
        pipes[rfd] = b""
        pids.append(pid)
    rows, stop = [], None
    while pipes:
        for fd in select.select(list(pipes), [], [], 5)[0]:
            b = os.read(fd, 1 << 16)
            if not b:
                os.close(fd)
                del pipes[fd]
                continue
            pipes[fd] += b
            *lines, pipes[fd] = pipes[fd].split(b"\n")
            for ln in lines:
                row = json.loads(ln)
                rows.append(row)
                if row.get("v") and stop is None:
                    stop = REAL_TIME() + 3
        if stop and REAL_TIME() > stop:
            break
    for p in pids:
        if stop:
            try:
                os.kill(p, signal.SIGTERM)
            except ProcessLookupError:
                pass
    bad = 0
    for p in pids:
        _, st = os.waitpid(p, 0)
        if os.waitstatus_to_exitcode(st) not in (0, -signal.SIGTERM):
            bad += 1
    for fd in pipes:
        os.close(fd)
    if bad and not stop:
        rows.append({"error": "%d workers ended early" % bad, "i": -1})
    return rows


# ---------------------------------------------------------------- minimisation
def shrink_trace(trace):
    """Candidate sub-lists of a schedule (the first entry says who starts)."""
    pre = [k for k in range(len(trace)) if trace[k][1] > 0]
    if not pre:
        return
    n = len(pre)
    size = n
    while size >= 1:
        for a in range(0, n, size):
            drop = set(pre[a:a + size])
            yield [t for k, t in enumerate(trace) if k not in drop]
        if size == 1:
            break
        size = max(1, size // 2)


def candidates(prop, case):
    yield from prop.shrink(case)
    if isinstance(case.get("sched"), dict) and case["sched"].get("trace"):
        for t in shrink_trace(case["sched"]["trace"]):
            yield {**case, "sched": {"trace": t}}


def minimise(prop, case, cls, base, budget, workers):
    """Greedy shrinking while a violation of the same class persists."""
    end = REAL_TIME() + budget
    n = 0
    again = True
    while again and REAL_TIME() < end:
        again = False
        batch, it = [], candidates(prop, case)
        while REAL_TIME() < end:
            batch = []
            for c in it:
                batch.append(c)
                if len(batch) == workers:
                    break
            if not batch:
                break
            for k, r in enumerate(parallel(prop, batch, base)):
                n += 1
                if any(v[0] == cls for v in r.get("v") or []):
                    case, again = batch[k], True
                    break
            if again:
                break
    return case, n


def parallel(prop, cases, base):
    jobs = []
    for k, c in enumerate(cases):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                rt.die_with_parent()
                d = os.path.join(base, "min-%d" % k)
                st, val = fork_call(lambda: one(prop, c, d), timeout=30)  # noqa: B023
                shutil.rmtree(d, ignore_errors=True)
                with os.fdopen(wfd, "w") as f:
                    f.write(json.dumps(val if st == "ok" else {"v": [["hang", ""]] if st == "timeout" else []}))
            finally:
                os._exit(0)
        os.close(wfd)
        jobs.append((pid, rfd))
    out = []
    for pid, rfd in jobs:
        st, val = _collect(pid, rfd, 120)
        out.append(val if st == "ok" else {})
    return out


# ---------------------------------------------------------------- entry points
def load(pid):
    m = importlib.import_module("sim.props." + pid.lower())
    return m


def fresh_replay(path):
    env = {k: v for k, v in os.environ.items() if k not in ("FKSIM_BASE", "LD_PRELOAD")}
    r = subprocess.run([rt.PY, "-s", os.path.join(rt.HERE, "__main__.py"), "replay", path], env=env,
                       capture_output=True, text=True, timeout=400)
    return r.returncode, r.stdout + r.stderr


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p, encoding="utf-8") as f:
        return [k for k in json.load(f)["known"] if k["property"] == pid]


def is_known(v, known):
    return next((k for k in known if k["class"] == v[0] and k["match"] in v[1]), None)


def check(pid, tier, vseed, runs=None, workers=None, log=None):
    t0 = REAL_TIME()
    prop = load(pid)
    base = os.environ["FKSIM_BASE"]
    workers = workers or min(8, os.cpu_count() or 1)
    n = runs or prop.RUNS[tier]
    wall = WALL[tier]
    print("%s tier=%s VERIF_SEED=%d runs=%d workers=%d" % (pid, tier, vseed, n, workers))
    sys.stdout.flush()
    rows = campaign(prop, vseed, tier, n, base, workers, wall)
    rows.sort(key=lambda r: r["i"])
    if log:
        with open(log, "w", encoding="utf-8") as f:
            for r in rows:
                f.write(json.dumps([r["i"], r.get("log"), r.get("key"), r.get("v"), r.get("error"), r.get("steps")]) + "\n")
    known = load_known(pid)
    hits = {}
    failing = []
    for r in rows:
        for v in r.get("v") or []:
            k = is_known(v, known)
            if k:
                hits[k["what"]] = hits.get(k["what"], 0) + 1
            else:
                failing.append((r, v))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    errors = [r for r in rows if "error" in r]
    code = 0
    if failing:
        failing.sort(key=lambda rv: (rv[0].get("size") or 0, rv[0]["i"]))
        r, v = failing[0]
        code = report(prop, vseed, tier, r, v, base, workers)
    elif errors:
        print("ERROR: %d of %d executions failed in the harness; the first:\n%s" % (
            len(errors), len(rows), errors[0]["error"]))
        code = 2
    elif len(rows) < n and REAL_TIME() - t0 < wall:
        print("ERROR: only %d of %d executions finished" % (len(rows), n))
        code = 2
    evidence(prop, pid, tier, vseed, rows, n, failing, time.monotonic() - t0, workers, hits)
    good = [r for r in rows if "error" not in r]
    print("%d executions (the longest, #%d, took %.1f s), %d distinct, %d steps, faults %s, probes %s, %.1f s" % (
        len(good), *max(((r.get("took", 0), r["i"]) for r in good), default=(0, 0))[::-1], len({r["key"] for r in good}), sum(r["steps"] for r in good),
        dict(total(good, "faults")), dict(total(good, "probes")), REAL_TIME() - t0))
    return code


def total(rows, k):
    c = collections.Counter()
    for r in rows:
        c.update(r.get(k) or {})
    return collections.Counter(dict(sorted(c.items())))


def report(prop, vseed, tier, row, v, base, workers):
    seed, case = case_of(prop, vseed, row["i"], tier)
    cls = v[0]
    print("violation in execution %d (seed %d): %s: %s" % (row["i"], seed, cls, v[1]))
    sys.stdout.flush()
    orig = case
    if row.get("trace") is not None:
        c2 = {**case, "sched": {"trace": row["trace"]}}
        r2 = execute(prop, c2, base, "r")
        if any(x[0] == cls for x in r2.get("v") or []):
            case = c2
    if cls != "hang":
        case, tried = minimise(prop, case, cls, base, 60 if tier == "quick" else 300, workers)
    else:
        tried = 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-%d-%d.json" % (prop.ID, vseed, row["i"]))

    def save(c, msg, how):
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": prop.ID, "verif_seed": vseed, "tier": tier, "execution": row["i"], "seed": seed,
                       "violation": {"class": cls, "message": msg}, "form": how, "case": c}, f, indent=1)
    r = execute(prop, case, base, "f")
    msg = next((x[1] for x in r.get("v") or [] if x[0] == cls), v[1])
    save(case, msg, "minimised (%d candidates tried)" % tried)
    ok = False
    for c, how in ((case, None), (orig, "as found")):
        if how:
            save(c, v[1], how)
        try:
            rc, out = fresh_replay(path)
        except subprocess.TimeoutExpired:
            rc, out = 1, cls
        if rc == 1 and cls in out:
            ok = True
            break
    print("replay in a fresh process: %s" % ("reproduced" if ok else "NOT reproduced"))
    print("minimised: %s" % msg)
    print("VIOLATION property=%s replay=%s" % (prop.ID, path))
    return 1


def replay(path):
    with open(path, encoding="utf-8") as f:
        d = json.load(f)
    prop = load(d["property"])
    r = execute(prop, d["case"], os.environ["FKSIM_BASE"], "replay")
    if "error" in r:
        print("ERROR: " + r["error"])
        return 2
    for v in r["v"]:
        print("%s: %s" % (v[0], v[1]))
    if any(v[0] == d["violation"]["class"] for v in r["v"]):
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("no violation")
    return 0


def evidence(prop, pid, tier, vseed, rows, n, failing, wall, workers, hits):
    good = [r for r in rows if "error" not in r]
    samples = []
    for i in (0, 1):
        if i < n:
            seed, case = case_of(prop, vseed, i, tier)
            samples.append({"execution": i, "seed": seed, "case": clip(case)})
    keys = {r["key"] for r in good if not r["trivial"]}
    steps = sum(r["steps"] for r in good)
    ev = {
        "property": pid, "tier": tier, "seed": vseed, "level": prop.LEVEL,
        "coverage": {
            "evaluations": len(good), "distinct_nontrivial": len(keys), "rule": prop.RULE, "samples": samples,
            "runs_planned": n, "runs_per_hour": round(len(good) / max(wall, 1e-6) * 3600),
            "scheduling_points_or_steps": steps, "simulated_seconds": round(sum(r["simtime"] for r in good), 3),
            "faults_fired": dict(total(good, "faults")), "probes": dict(total(good, "probes")),
            "distinctness_measure": prop.DISTINCT, "workers": workers,
            "real_components": prop.REAL, "stub_components": prop.STUB,
            "known_findings_hit": hits,
        },
        "assumptions": prop.ASSUME, "wall_s": round(wall, 2), "violations": len(failing),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)


def clip(x, depth=0):
    if isinstance(x, dict):
        return {k: clip(v, depth + 1) for k, v in list(x.items())[:12]} if depth < 9 else "..."
    if isinstance(x, list):
        return [clip(v, depth + 1) for v in x[:4]] + (["(%d more)" % (len(x) - 4)] if len(x) > 4 else [])
    if isinstance(x, str) and len(x) > 80:
        return x[:80] + "..."
    return x
