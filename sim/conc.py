"""Several simulated threads executing catalogue operations."""
import os

from sim import ops as O
from sim import runtime as rt
from sim import sched as S


def solo(op, backend, dir_, setup=None):
    """Digest and verdict of an operation that runs alone in a process of its own."""
    from sim import runner

    def body():
        os.makedirs(dir_, exist_ok=True)
        rt.set_backend(backend)
        env = O.Env(dir_, backend)
        if setup:
            setup(env)
        ctx = O.OPS[op["op"]].prepare(op, env)
        rt.cap.clear()
        out = O.execute(op, ctx, env)
        logs = list(rt.cap.of())
        bad = O.check(op, ctx, out, env, logs)
        return [O.OPS[op["op"]].digest(op, ctx, out), bad]
    st, val = runner.fork_call(body)
    if st != "ok":
        return ["%s:%s" % (st, val), "alone: %s %s" % (st, val)]
    return val


class Stopped(Exception):
    """The simulation ended in a deadlock or livelock."""


def simulate(fns, case, roots=None, max_steps=3_000_000, inject=False):
    s = S.Scheduler(roots or (rt.LIB,), S.make_policy(case["sched"]), case.get("gran", "line"), max_steps)
    s.inject = inject
    for k, f in enumerate(fns):
        s.spawn(f, "thread %d" % k)
    s.run()
    return s


def op_thread(oplist, env, outs, late):
    """Body of a thread that executes operations one after the other."""
    def body():
        tid = S.me().id
        for j, (op, ctx) in enumerate(oplist):
            if late:
                ctx.update(O.OPS[op["op"]].prepare(op, env))
            k = len(rt.cap.of(tid))
            out = O.execute(op, ctx, env)
            outs[j] = (out, rt.cap.of(tid)[k:])
    return body


def finish(s, res):
    """Verdicts common to all threaded runs."""
    res.steps += s.steps
    res.simtime += s.now
    res.probes["switches"] += s.switches
    res.trace = s.trace
    res.note("schedule", s.steps, s.switches, s.digest, [t.n for t in s.threads])
    if s.failure:
        res.fail(s.failure.split(":")[0], s.failure)
        raise Stopped
    for t in s.threads:
        if t.error is not None:
            res.fail("thread died", "%s ended with %s: %s" % (t.name, type(t.error).__name__, t.error))
    held = S.held_locks()
    if held:
        res.fail("lock held", "%d locks stay held after all calls ended" % len(held))


def shrink_threads(case):
    ths = case["threads"]
    for k in range(len(ths)):
        if len(ths) > 1:
            yield {**case, "threads": ths[:k] + ths[k + 1:], "sched": drop_thread(case["sched"], k)}
    for k in range(len(ths)):
        for j in range(len(ths[k])):
            if len(ths[k]) > 1:
                yield {**case, "threads": ths[:k] + [ths[k][:j] + ths[k][j + 1:]] + ths[k + 1:]}
    for k in range(len(ths)):
        for j in range(len(ths[k])):
            for op in O.shrink_op(ths[k][j]):
                yield {**case, "threads": ths[:k] + [ths[k][:j] + [op] + ths[k][j + 1:]] + ths[k + 1:]}


def drop_thread(sched, k):
    if "trace" not in sched:
        return sched
    m = lambda x: x - 1 if x > k else x  # noqa: E731
    return {"trace": [[m(a), n, m(b)] for a, n, b in sched["trace"] if a != k and b != k]}
