"""Deterministic scheduler for real threads.

Exactly one simulated thread runs at a time. It may be preempted at scheduling
points: every line executed in a file below a traced directory (with fine granularity also
the return from every Python and C function, where CPython switches threads), every
lock operation and every sleep. Which points
preempt, and whom they switch to, is decided by a seeded policy and recorded as
[thread, point number within that thread, next thread]; the recorded list replays
the execution exactly.
"""
import _thread
import random
import sys
import threading
import weakref
import zlib

from sim import hot

REAL_LOCK = _thread.allocate_lock
REAL_RLOCK = threading.RLock
REAL_SLEEP = __import__("time").sleep

current = None  # the active Scheduler


class Scheduler:
    def __init__(self, roots, policy, granularity="line", max_steps=3_000_000):
        self.roots = tuple(roots)
        self.gran = granularity
        self.max_steps = max_steps
        self.policy = policy
        self.threads = []
        self.cur = None
        self.trace = []          # recorded preemptions
        self.steps = 0
        self.switches = 0
        self.failure = None
        self.now = 0.0           # virtual seconds spent in sleeps
        self.done = REAL_LOCK()
        self.digest = 0
        self.filecache = {}
        self.where = None        # frame of the current point
        self.inject = False      # threads may carry an injector

    # -- threads
    def spawn(self, fn, name):
        t = SimThread(self, len(self.threads), fn, name)
        self.threads.append(t)
        return t

    def run(self):
        global current
        current = self
        self.policy.start(self)
        self.done.acquire()
        if self.inject:
            self.watch_calls()
        try:
            for t in self.threads:
                _thread.start_new_thread(t.main, ())
                self.done.acquire()  # it has switched tracing on
            first = self.policy.first(self)
            self.cur = self.threads[first]
            self.trace.append([-1, 0, first])
            self.cur.sem.release()
            self.done.acquire()
        finally:
            current = None
            if self.inject:
                sys.monitoring.set_events(3, 0)
                sys.monitoring.free_tool_id(3)
        return self.failure is None

    # -- called by the running thread
    def point(self, t, where=None):
        """A scheduling point of running thread t."""
        t.n += 1
        self.steps += 1
        if self.steps > self.max_steps:
            self.fail("livelock: more than %d steps" % self.max_steps)
            t.sem.acquire()
        self.where = where
        nxt = self.policy.decide(self, t)
        if nxt is not None and nxt is not t.id:
            o = self.threads[nxt]
            if o.state == "ready":
                self.trace.append([t.id, t.n, nxt])
                self.switch(t, o)

    def switch(self, t, o):
        self.switches += 1
        if t is not None:
            self.digest = hash((self.digest, t.id, t.n, o.id))
        self.cur = o
        o.sem.release()
        if t is not None:
            t.sem.acquire()

    def block(self, t, why, until=None):
        """Thread t cannot go on until another thread unblocks it."""
        t.state, t.why, t.until = "blocked", why, until
        self.leave(t)
        t.sem.acquire()

    def leave(self, t):
        """Give the baton away because t is blocked or finished."""
        ready = [x for x in self.threads if x.state == "ready"]
        if not ready:
            timed = [x for x in self.threads if x.state == "blocked" and x.until is not None]
            if timed:
                x = min(timed, key=lambda x: (x.until, x.id))
                self.now = max(self.now, x.until)
                x.state, x.timedout = "ready", True
                ready = [x]
        if not ready:
            if all(x.state == "done" for x in self.threads):
                self.done.release()
                return
            self.fail("deadlock: " + "; ".join("%s waits for %s" % (x.name, x.why)
                                               for x in self.threads if x.state == "blocked"))
            return
        nxt = self.policy.leaving(self, t, ready)
        self.trace.append([t.id, -t.n if t.state != "done" else -10 ** 9, nxt])
        self.switches += 1
        self.digest = hash((self.digest, t.id, t.n, nxt))
        self.cur = self.threads[nxt]
        self.cur.sem.release()

    def fail(self, msg):
        """End the simulation; the threads stay where they are (the process ends soon)."""
        self.failure = msg
        self.done.release()

    def watch_calls(self):
        """Function entries of the library, for injectors. (Raising from a trace function would switch tracing
        off, which CPython 3.12 does not survive while other threads are being traced.)"""
        m = sys.monitoring
        roots = self.roots

        def start(code, offset):
            if not code.co_filename.startswith(roots):
                return m.DISABLE
            t = me()
            if t is not None and t.injector is not None:
                t.injector.entry(code)
            return None
        m.use_tool_id(3, "fksim")
        m.register_callback(3, m.events.PY_START, start)
        m.set_events(3, m.events.PY_START)

    # -- tracing
    def tracer(self, t):
        cache, roots, fine, point = self.filecache, self.roots, self.gran == "fine", self.point

        def local(frame, event, arg):
            if event == "line" or (fine and event == "return"):
                point(t, frame)
            return local

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            ok = cache.get(fn)
            if ok is None:
                ok = cache[fn] = fn.startswith(roots)
            if not ok:
                return None
            point(t, frame)
            return local

        def c_calls(frame, event, arg):
            """With fine granularity also the return from C functions (where CPython can switch threads)."""
            if event == "c_return":
                fn = frame.f_code.co_filename
                ok = cache.get(fn)
                if ok is None:
                    ok = cache[fn] = fn.startswith(roots)
                if ok:
                    point(t, frame)

        return glob, c_calls if fine else None


class SimThread:
    def __init__(self, sched, id_, fn, name):
        self.sched, self.id, self.fn, self.name = sched, id_, fn, name
        self.sem = REAL_LOCK()
        self.sem.acquire()
        self.n = 0
        self.state = "ready"
        self.why = self.until = None
        self.timedout = False
        self.result = self.error = self.injector = None

    def main(self):
        # Tracing is switched on before any thread runs library code, and off only by the end of the thread.
        _by_ident[_thread.get_ident()] = self
        trace, prof = self.sched.tracer(self)
        sys.settrace(trace)
        if prof:
            sys.setprofile(prof)
        self.sched.done.release()
        self.sem.acquire()
        try:
            self.result = self.fn()
        except BaseException as e:  # noqa: BLE001
            self.error = e
        finally:
            _by_ident.pop(_thread.get_ident(), None)
            self.state = "done"
            self.sched.leave(self)


_by_ident = {}


def me():
    """The simulated thread that is running, or None."""
    return _by_ident.get(_thread.get_ident()) if current is not None else None


# ---------------------------------------------------------------- policies
class RandomPolicy:
    """Switch after a random number of points (mean `gap`) to a random thread."""

    def __init__(self, seed, gap):
        self.r = random.Random(seed)
        self.gap = gap

    def start(self, s):
        self.next = self._gap()

    def _gap(self):
        return 1 + int(self.r.expovariate(1.0 / self.gap)) if self.gap > 1 else self.r.choice((1, 1, 2))

    def first(self, s):
        return self.r.randrange(len(s.threads))

    def decide(self, s, t):
        self.next -= 1
        if self.next > 0:
            return None
        self.next = self._gap()
        ready = [x.id for x in s.threads if x.state == "ready" and x is not t]
        return self.r.choice(ready) if ready else None

    def leaving(self, s, t, ready):
        return self.r.choice(ready).id


class PCTPolicy:
    """Random priorities with a few priority change points (PCT)."""

    def __init__(self, seed, depth, length):
        self.r = random.Random(seed)
        self.depth, self.length = depth, length

    def start(self, s):
        n = len(s.threads)
        p = list(range(self.depth + 1, self.depth + 1 + n))
        self.r.shuffle(p)
        self.prio = p
        self.points = sorted(self.r.randrange(1, max(2, self.length)) for _ in range(self.depth))
        self.low = self.depth

    def best(self, s, ready):
        return max(ready, key=lambda x: self.prio[x.id]).id

    def first(self, s):
        return self.best(s, s.threads)

    def decide(self, s, t):
        if self.points and s.steps >= self.points[0]:
            self.points.pop(0)
            self.prio[t.id] = self.low
            self.low -= 1
            return self.best(s, [x for x in s.threads if x.state == "ready"])
        return None

    def leaving(self, s, t, ready):
        return self.best(s, ready)


class SitePolicy:
    """Preempt at a few seeded places of the code, whenever a thread gets there; the others run for a while."""

    def __init__(self, seed, rate, p, burst, hot=0):
        self.r = random.Random(seed)
        self.seed, self.rate, self.p, self.burst = seed, rate, p, burst
        self.hot = hot  # rate of functions that touch lasting state; all of their lines count
        self.sites = {}

    def start(self, s):
        self.left = -1
        self.fine = s.gran == "fine"

    def first(self, s):
        return self.r.randrange(len(s.threads))

    def site(self, f):
        key = (f.f_code, f.f_lasti if self.fine else f.f_lineno)
        got = self.sites.get(key)
        if got is None:
            c = f.f_code
            name = "%s %s %s %s" % (self.seed, c.co_filename.rsplit("/", 1)[-1], c.co_qualname,
                                    f.f_lasti if self.fine else (f.f_lineno or 0) - c.co_firstlineno)
            got = zlib.crc32(name.encode()) % 1000 < self.rate
            if self.hot and not got and hot.hot(f):
                got = zlib.crc32(("%s %s" % (self.seed, c.co_qualname)).encode()) % 1000 < self.hot
            self.sites[key] = got
        return got

    def decide(self, s, t):
        self.left -= 1
        if s.where is not None and self.site(s.where) and self.r.random() < self.p:
            self.left = self.r.choice(self.burst)
        elif self.left != 0:
            return None
        ready = [x.id for x in s.threads if x.state == "ready" and x is not t]
        return self.r.choice(ready) if ready else None

    def leaving(self, s, t, ready):
        return self.r.choice(ready).id


class ReplayPolicy:
    """Follow a recorded list of preemptions; run to completion otherwise."""

    def __init__(self, trace):
        self.first_ = 0
        self.at = {}
        for a, n, b in trace:
            if a == -1:
                self.first_ = b
            else:
                self.at[(a, n)] = b

    def start(self, s):
        pass

    def first(self, s):
        return self.first_ if self.first_ < len(s.threads) else 0

    def decide(self, s, t):
        return self.at.get((t.id, t.n)) if self.at else None

    def leaving(self, s, t, ready):
        b = self.at.get((t.id, -t.n if t.state != "done" else -10 ** 9))
        if b is not None and any(x.id == b for x in ready):
            return b
        return min(x.id for x in ready)


def make_policy(p):
    if "trace" in p:
        return ReplayPolicy(p["trace"])
    if p["kind"] == "random":
        return RandomPolicy(p["seed"], p["gap"])
    if p["kind"] == "site":
        return SitePolicy(p["seed"], p["rate"], p["p"], p["burst"], p.get("hot", 0))
    return PCTPolicy(p["seed"], p["depth"], p["length"])


def gen_policy(r, length=3000):
    k = r.random()
    if k < 0.55:
        h = r.random() < 0.6
        return {"kind": "site", "seed": r.getrandbits(48), "rate": r.choice((0, 0, 4) if h else (4, 12, 40)),
                "hot": r.choice((150, 400, 1000)) if h else 0, "p": r.choice((0.1, 0.3, 0.7, 1.0) if h else (0.3, 0.7, 1.0)),
                "burst": r.choice(((40,), (300,), (3000,), (40, 300, 3000)))}
    if k < 0.85:
        return {"kind": "random", "seed": r.getrandbits(48), "gap": r.choice((1, 3, 8, 20, 60, 200))}
    return {"kind": "pct", "seed": r.getrandbits(48), "depth": r.choice((1, 2, 3, 5)),
            "length": max(10, int(length * r.choice((0.3, 1, 1.5))))}


# ---------------------------------------------------------------- simulated locks
_locks = []


def held_locks():
    return [x for x in (w() for w in _locks) if x is not None and x._owner is not None]


class SimLock:
    """threading.Lock; a scheduling point and a blocking point inside a simulation."""
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._waiters = []
        _locks.append(weakref.ref(self))

    def _me(self):
        return me() or _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        t = me()
        ident = t if t is not None else _thread.get_ident()
        if t is not None:
            t.sched.point(t)
        if self._owner is not None and self._reentrant and self._owner == ident:
            self._count += 1
            return True
        if self._owner is not None and isinstance(self._owner, SimThread) and t is None:
            # left behind by a simulation that was aborted
            raise RuntimeError("lock is still held by %s after it ended" % self._owner.name)
        while self._owner is not None:
            if not blocking:
                return False
            if t is None:
                raise RuntimeError("deadlock: lock already held")
            self._waiters.append(t)
            t.timedout = False
            t.sched.block(t, "a lock held by %s" % getattr(self._owner, "name", "the main thread"),
                          t.sched.now + timeout if timeout is not None and timeout >= 0 else None)
            if t in self._waiters:
                self._waiters.remove(t)
            if t.timedout:
                return False
        self._owner = ident
        self._count = 1
        return True

    def release(self):
        t = me()
        ident = t if t is not None else _thread.get_ident()
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self._reentrant and self._owner != ident:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            for w in self._waiters:
                if w.state == "blocked":
                    w.state = "ready"
        if t is not None:
            t.sched.point(t)

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._owner, self._count, self._waiters = None, 0, []

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == self._me()


class SimRLock(SimLock):
    _reentrant = True

    def _release_save(self):
        c = self._count
        self._count = 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c


def _sleep(secs):
    t = me()
    if t is None:
        return REAL_SLEEP(min(secs, 0.01))
    t.timedout = False
    t.sched.block(t, "sleep", t.sched.now + max(0.0, secs))


def install():
    """Replace the lock primitives and sleep for code imported from now on."""
    import time
    threading.Lock = threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    time.sleep = _sleep
