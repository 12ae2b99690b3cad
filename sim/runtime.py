"""Process set-up: shim, deterministic environment, import of the library, helpers."""
import ctypes
import gc
import hashlib
import importlib
import io
import logging
import os
import pkgutil
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FASTKML_REPO", "/repo")
LIB = os.path.join(REPO, "fastkml") + os.sep
PY = "/opt/venv/bin/python"

OP = dict(open=1, read=2, write=4, close=8, sync=16, trunc=32, rename=64, unlink=128, seek=256)
OPNAME = {v: k for k, v in OP.items()}
ACT = dict(fail=1, short=2, quota=3, crash_before=4, crash_after=5, crash_torn=6, fail_after=7)


def _fixed_addresses():
    """No address space randomisation (object addresses are then the same in every run)."""
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:  # noqa: BLE001, S110
        pass


def die_with_parent():
    ctypes.CDLL(None).prctl(1, 9)


def reexec(argv):
    """Start this program again in the controlled environment (once)."""
    if os.environ.get("FKSIM_BASE"):
        return os.environ["FKSIM_BASE"]
    base = tempfile.mkdtemp(prefix="fksim-")
    so = os.path.join(base, "shim.so")
    r = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "shim.c"), "-ldl"],
                       capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr)
        shutil.rmtree(base, ignore_errors=True)
        sys.exit(2)
    env = {k: v for k, v in os.environ.items()
           if k in ("PATH", "HOME", "VERIF_SEED", "VERIF_TIER", "FASTKML_REPO") or k.startswith("FKSIM_")}
    env.update(FKSIM_BASE=base, LD_PRELOAD=so, PYTHONHASHSEED=env.get("FKSIM_HASHSEED", "0"),
               PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(base, "pyc"), TZ="UTC",
               LC_ALL="C.UTF-8", PYTHONUTF8="0", PYTHONPATH=REPO + os.pathsep + os.path.dirname(HERE),
               PYTHONWARNINGS="ignore")
    try:
        p = subprocess.Popen([PY, "-s"] + argv, env=env, preexec_fn=_fixed_addresses)
        rc = p.wait()
    except KeyboardInterrupt:
        p.terminate()
        rc = 2
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.exit(rc if rc >= 0 else 2)


_event = None
shim = None


class Event(ctypes.Structure):
    _fields_ = [("op", ctypes.c_int), ("fd", ctypes.c_int), ("size", ctypes.c_long), ("ret", ctypes.c_long),
                ("err", ctypes.c_int), ("rule", ctypes.c_int)]


def load_shim():
    global shim
    s = ctypes.CDLL(None)
    s.sim_rule.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_long]
    s.sim_root.argtypes = [ctypes.c_char_p]
    s.sim_fired.restype = ctypes.c_long
    s.sim_events.restype = ctypes.POINTER(Event)
    s.sim_clock.argtypes = [ctypes.c_int, ctypes.c_double, ctypes.c_double]
    s.sim_jump.argtypes = [ctypes.c_long, ctypes.c_double]
    s.sim_clock_set.argtypes = [ctypes.c_double]
    s.sim_clock_calls.restype = ctypes.c_long
    s.sim_locale.argtypes = [ctypes.c_char_p, ctypes.c_int]
    shim = s


def setup():
    """Import the library from the working tree, behind the simulated primitives."""
    load_shim()
    import concurrent.futures  # noqa: F401
    import encodings.cp1252  # noqa: F401
    import encodings.iso8859_1  # noqa: F401
    import encodings.utf_16  # noqa: F401
    import queue  # noqa: F401
    import time
    import xml.etree.ElementTree  # noqa: F401
    import zipfile  # noqa: F401

    import arrow  # noqa: F401
    import lxml.etree  # noqa: F401
    import pygeoif.geometry  # noqa: F401

    from sim import sched
    time.strptime("2000", "%Y")
    sched.install()
    import fastkml
    if os.path.dirname(os.path.abspath(fastkml.__file__)) + os.sep != LIB:
        sys.stderr.write("fastkml is imported from %s\n" % fastkml.__file__)
        sys.exit(2)
    for m in pkgutil.walk_packages(fastkml.__path__, "fastkml."):
        importlib.import_module(m.name)
    from sim import vocab
    vocab.type_table()
    arrow.get("2005-01-01T00:00:00+01:00")
    install_logging()
    gc.freeze()


# ---------------------------------------------------------------- logs
class Cap(logging.Handler):
    """Collects log records per simulated thread, without locks."""

    def __init__(self):
        super().__init__()
        self.records = {}

    def handle(self, record):
        from sim import sched
        t = sched.me()
        key = t.id if t is not None else None
        self.records.setdefault(key, []).append((record.levelname, record.getMessage()))
        return record

    def of(self, key=None):
        return self.records.get(key, [])

    def clear(self):
        self.records = {}


cap = None


def install_logging():
    global cap
    cap = Cap()
    lg = logging.getLogger("fastkml")
    lg.handlers[:] = [cap]
    lg.propagate = False
    lg.setLevel(logging.INFO)
    logging.lastResort = None


# ---------------------------------------------------------------- back ends
def set_backend(name, register=True):
    import lxml.etree
    import xml.etree.ElementTree as ET

    from fastkml import config
    config.set_etree_implementation({"lxml": lxml.etree, "et": ET}[name])
    if register:
        config.set_default_namespaces()


# ---------------------------------------------------------------- process-wide settings
def settings():
    """What a call of the library has no business to change for the rest of the process."""
    import decimal
    import gc
    import locale
    import random
    import signal
    import socket

    from fastkml import config
    mask = os.umask(0o22)
    os.umask(mask)
    return {"working directory": os.getcwd(), "umask": mask, "locale": locale.setlocale(locale.LC_ALL),
            "recursion limit": sys.getrecursionlimit(), "environment": dict(os.environ), "decimal context": repr(decimal.getcontext()),
            "garbage collection": gc.isenabled(), "random state": h(random.getstate()), "time-out of sockets": socket.getdefaulttimeout(),
            "signal handlers": {s: repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGALRM, signal.SIGTERM, signal.SIGPIPE)},
            "import path": list(sys.path), "logging": (logging.root.manager.disable, logging.root.level),
            "XML back end": config.etree.__name__, "name spaces": dict(config.NAME_SPACES),
            "default name spaces": dict(config.DEFAULT_NAME_SPACES), "standard streams": [repr(sys.stdin), repr(sys.stdout), repr(sys.stderr)]}


def changed_settings(old):
    """Description of a changed setting, or None."""
    new = settings()
    for k in old:
        if old[k] != new[k]:
            return "%s: %.200r, now %.200r" % (k, old[k], new[k])
    return None


# ---------------------------------------------------------------- shim control
def arm(root, rules):
    shim.sim_reset()
    shim.sim_root(root.encode())
    for r in rules:
        mask = 0
        for o in r["on"].split("|"):
            mask |= 0xFFFF & ~OP["seek"] if o == "any" else OP[o]
        shim.sim_rule(mask, r.get("nth", 0), ACT[r["act"]], r.get("err", 0), r.get("arg", 0), r.get("count", 1))
    shim.sim_arm(1)


def disarm(rules=()):
    shim.sim_arm(0)
    return [shim.sim_fired(i) for i in range(len(rules))]


def events():
    n = shim.sim_nevents()
    e = shim.sim_events()
    return [(OPNAME.get(e[i].op, str(e[i].op)), e[i].size, e[i].ret, e[i].err, e[i].rule) for i in range(n)]


# ---------------------------------------------------------------- streams
class SimStream(io.RawIOBase):
    """Binary stream that delivers `data` in the given pieces and may fail.

    Reading is not a scheduling point: lxml may hold the lock of a parser while it reads.

    fault: None or [number of bytes to deliver first, kind]
    """

    def __init__(self, data, pieces, fault=None):
        self.data, self.pieces, self.fault = data, list(pieces), fault
        self.pos = self.i = self.calls = 0
        self.fired = False

    def readable(self):
        return True

    def _take(self, n):
        self.calls += 1
        if self.fault and self.pos >= self.fault[0] and not (self.fired and self.fault[2:] == ["once"]):
            self.fired = True
            raise make_error(self.fault[1])
        k = self.pieces[self.i % len(self.pieces)] if self.pieces else len(self.data)
        self.i += 1
        k = max(1, k)
        if n is not None and n >= 0:
            k = min(k, n)
        if self.fault and not self.fired:
            k = min(k, max(0, self.fault[0] - self.pos)) or 0
            if k == 0 and self.pos < len(self.data):
                k = 1
        b = self.data[self.pos:self.pos + k]
        self.pos += len(b)
        return b

    def readinto(self, b):
        d = self._take(len(b))
        b[:len(d)] = d
        return len(d)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        return self._take(n)

    def readall(self):
        out = []
        while True:
            b = self._take(None)
            if not b:
                return b"".join(out)
            out.append(b)


class SimText:
    """Text stream (read only) that delivers str in the given pieces and may fail."""

    def __init__(self, text, pieces, fault=None):
        self.text, self.pieces, self.fault = text, list(pieces), fault
        self.pos = self.i = self.calls = 0
        self.closed = self.fired = False

    def read(self, n=-1):
        if n is not None and n >= 0:
            return self._take(n)
        out = []
        while True:
            s = self._take(None)
            if not s:
                return "".join(out)
            out.append(s)

    def _take(self, n):
        self.calls += 1
        if self.fault and self.pos >= self.fault[0]:
            self.fired = True
            raise make_error(self.fault[1])
        k = self.pieces[self.i % len(self.pieces)] if self.pieces else len(self.text)
        self.i += 1
        k = max(1, k)
        if n is not None:
            k = min(k, n)
        if self.fault:
            k = min(k, max(1, self.fault[0] - self.pos))
        b = self.text[self.pos:self.pos + k]
        self.pos += len(b)
        return b

    def close(self):
        self.closed = True


class SimTimeout(Exception):
    """A timeout that an alarm handler of the application raises."""


class SimExit(BaseException):
    """A shutdown request of the application (like SystemExit)."""


def make_error(kind):
    import errno
    import zlib
    return {
        "EIO": lambda: OSError(errno.EIO, "Input/output error"),
        "ECONNRESET": lambda: ConnectionResetError(errno.ECONNRESET, "Connection reset by peer"),
        "ETIMEDOUT": lambda: TimeoutError(errno.ETIMEDOUT, "timed out"),
        "ESTALE": lambda: OSError(errno.ESTALE, "Stale file handle"),
        "ValueError": lambda: ValueError("I/O operation on closed file"),
        "EOFError": lambda: EOFError("Compressed file ended"),
        "zlib": lambda: zlib.error("Error -3 while decompressing data"),
        "RuntimeError": lambda: RuntimeError("source went away"),
        "MemoryError": lambda: MemoryError(),
        "KeyboardInterrupt": lambda: KeyboardInterrupt(),
        "RecursionError": lambda: RecursionError("maximum recursion depth exceeded"),
        "SimTimeout": lambda: SimTimeout("simulated timeout"),
        "SimExit": lambda: SimExit("simulated shutdown"),
    }[kind]()


def h(*parts):
    return int.from_bytes(hashlib.sha256("|".join(map(str, parts)).encode()).digest()[:6], "big")


def exc_name(e):
    return type(e).__name__
