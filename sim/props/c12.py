"""Clock, time zone and locale do not influence results."""
import json
import os
import subprocess
import time

from sim import conc
from sim import ops as O
from sim import runner
from sim import runtime as rt
from sim import vocab as V

ID = "C12"
LEVEL = "exploration"
WIDE = 0.004
RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("1 to 5 catalogue operations (writing .kmz often) run in a process whose system clock, time zone, locale conventions "
        "(decimal comma, other month names) and default text encoding are simulated: times from 1684 to 2255 (what CPython can represent), running at any "
        "speed, backwards or jumping at the n-th time the clock is read; four percent start a new interpreter under these "
        "conditions, with another hash seed and interpreter flags (-O, -OO, -bb, -X utf8, -X dev). Results and written XML are compared with the same operation under the normal environment and with the "
        "specification. Non-trivial: always (the environment differs).")
DISTINCT = "hash of environment, operations and outcomes"
REAL = ["fastkml (all modules)", "lxml / xml.etree", "arrow", "zipfile", "C library time zone conversion"]
STUB = ["system clock (clock_gettime, gettimeofday, time)", "nl_langinfo, localeconv, strftime names", "TZ setting"]
ASSUME = ["the environment is reached through the C library calls of the interpreter"]
TIMES = (0.0, -1.0, -86400.0 * 365 * 30, 315532799.0, 315532800.0, 315532801.5, 1.7e9, 2 ** 31 - 1.0, 2 ** 31 + 0.0, 4102444800.0,
         4354819198.0, 4354819199.0, 4354819200.0, 2 ** 32 + 1.0, 9.0e9, -9.0e9, 951782399.0, 951825600.0, 1711846799.5,
         -2208988800.0)
ZONES = ("UTC", "Europe/Berlin", "America/St_Johns", "Asia/Kathmandu", "Pacific/Apia", "<+14>-14", "Europe/London", "<-12>12", "XYZ-0:30:15",
         "EST5EDT,M3.2.0,M11.1.0", "Antarctica/Troll", "Europe/Dublin", "Africa/Casablanca", "America/Sao_Paulo", ":nonsense", "")
FLAGS = ([], [], ["-O"], ["-OO"], ["-X", "utf8"], ["-X", "dev"], ["-W", "error::EncodingWarning", "-X", "warn_default_encoding"], ["-bb"])
CODESETS = ("UTF-8", "ANSI_X3.4-1968", "ISO-8859-1", "ISO-8859-15", "EUC-JP", "GBK", "UTF-16", "CP1252")


def gen(r, tier):
    base = r.choice(TIMES) if r.random() < 0.7 else r.uniform(-3e9, 6e9)
    env = {"base": base, "step": r.choice((0.0, 0.0, 1e-6, 1.0, 86400.0, -3600.0, 1e7)),
           "jumps": [[r.randrange(6), r.choice(TIMES)] for _ in range(r.choice((0, 0, 1, 3)))],
           "tz": r.choice(ZONES), "codeset": r.choice(CODESETS), "foreign": r.random() < 0.5}
    table = O.OWN + [("write", 12)]
    ops = [O.gen_op(r, table) for _ in range(r.choice((1, 2, 3, 5)))]
    for o in ops:
        if o["op"] == "write" and r.random() < 0.6:
            o["ext"] = ".kmz"
    return {"backend": r.choice(("lxml", "lxml", "et")), "env": env, "ops": ops, "spawn": r.random() < 0.04,
            "hash": r.randrange(1, 2 ** 31), "flags": r.choice(FLAGS)}


def enter(env):
    os.environ["TZ"] = env["tz"]
    time.tzset()
    rt.shim.sim_locale(env["codeset"].encode(), int(env["foreign"]))
    rt.shim.sim_clock(1, env["base"], env["step"])
    for k, to in env["jumps"]:
        rt.shim.sim_jump(k, to)


def leave():
    n = rt.shim.sim_clock_calls()
    rt.shim.sim_clock(0, 0.0, 0.0)
    rt.shim.sim_locale(b"", 0)
    os.environ["TZ"] = "UTC"
    time.tzset()
    return n


def perform(case, d):
    """Execute the operations under the simulated environment; outcomes are looked at afterwards."""
    rt.set_backend(case["backend"])
    rows, calls = [], 0
    for k, op in enumerate(case["ops"]):
        dd = os.path.join(d, "v%d" % k)
        os.makedirs(dd)
        env = O.Env(dd, case["backend"])
        ctx = O.OPS[op["op"]].prepare(op, env)
        rt.cap.clear()
        enter(case["env"])
        try:
            out = O.execute(op, ctx, env)
        finally:
            calls += leave()
        logs = list(rt.cap.of())
        rows.append([O.OPS[op["op"]].digest(op, ctx, out), O.check(op, ctx, out, env, logs),
                     "%s: %s" % (type(out.exc).__name__, out.exc) if isinstance(out, O.Err) else None])
    return [rows, calls]


def spawn(case, d):
    """The same in a new interpreter that starts under the simulated environment."""
    with open(os.path.join(d, "case.json"), "w", encoding="utf-8") as f:
        json.dump(case, f)
    env = dict(os.environ)
    env["TZ"] = case["env"]["tz"]
    env["PYTHONHASHSEED"] = str(case.get("hash", 0))
    if case["env"]["codeset"] != "UTF-8":
        env.update(LC_ALL="C", PYTHONCOERCECLOCALE="0")
    p = subprocess.run([rt.PY, "-s", *case.get("flags", []), "-c", "import sys; sys.path.insert(0, %r); from sim.props import c12; c12.spawned(%r)" % (
        os.path.dirname(rt.HERE), d)], env=env, capture_output=True, timeout=120)
    try:
        with open(os.path.join(d, "out.json"), encoding="utf-8") as f:
            return json.load(f)
    except FileNotFoundError:
        return p.stderr.decode("utf-8", "replace")[-1500:]


def spawned(d):
    with open(os.path.join(d, "case.json"), encoding="utf-8") as f:
        case = json.load(f)
    rt.load_shim()
    enter(case["env"])
    rt.setup()
    leave()
    out = perform(case, d)
    with open(os.path.join(d, "out.json"), "w", encoding="utf-8") as f:
        json.dump(out, f)


def run(case, d, res):
    alone = [conc.solo(op, case["backend"], os.path.join(d, "s%d" % k)) for k, op in enumerate(case["ops"])]
    if case["spawn"]:
        got = spawn(case, d)
        if isinstance(got, str):
            res.fail("no start", "a new interpreter under %s failed: %s" % (case["env"], got))
            return
    else:
        st, got = runner.fork_call(lambda: perform(case, d))
        if st != "ok":
            if st == "exc" and rt.LIB not in str(got):
                raise RuntimeError(got)
            res.fail("died", "%s %s" % (st, got))
            return
    rows, calls = got
    res.steps += len(rows)
    res.simtime += abs(case["env"]["step"]) * calls
    e = case["env"]
    res.faults["clock set"] += 1
    res.faults["clock jumps"] += len(e["jumps"])
    res.faults["time zone"] += e["tz"] != "UTC"
    res.faults["encoding"] += e["codeset"] != "UTF-8"
    res.faults["foreign conventions"] += e["foreign"]
    res.faults["interpreter start"] += case["spawn"]
    res.probes["clock reads"] += calls
    for k, (op, row, ref) in enumerate(zip(case["ops"], rows, alone)):
        dig, bad, err = row
        res.probes["op " + op["op"] + (op.get("ext", "") if op["op"] == "write" else "")] += 1
        res.note(k, op["op"], rt.h(dig), bad)
        if dig != ref[0]:
            res.fail("differs", "%s under %s: normally %s, here %s" % (op["op"], e, V.short(ref[0]), err or V.short(dig)))
        elif bad and (not ref[1] or op["op"] == "write"):
            res.fail("wrong", "%s under %s: %s" % (op["op"], e, bad))
    res.note(rt.h(e))


def size(case):
    return len(case["ops"])


def shrink(case):
    ops = case["ops"]
    for i in range(len(ops)):
        if len(ops) > 1:
            yield {**case, "ops": ops[:i] + ops[i + 1:]}
    if case["spawn"]:
        yield {**case, "spawn": False}
        if case.get("flags"):
            yield {**case, "flags": []}
    e = case["env"]
    for k, v in (("jumps", []), ("tz", "UTC"), ("codeset", "UTF-8"), ("foreign", False), ("step", 0.0), ("base", 1.7e9)):
        if e[k] != v:
            yield {**case, "env": {**e, k: v}}
    for i, o in enumerate(ops):
        for p in O.shrink_op(o):
            yield {**case, "ops": ops[:i] + [p] + ops[i + 1:]}
