"""Exceptions injected at execution points of the library.

Only points at which the interpreter itself can deliver an asynchronous exception are used: entry of a
library function or of a function it calls, and the return from a call, as long as the exception is attributed to the same exception
handlers as the call. (CPython polls for signals there; it does not between two plain bytecodes, so that the
clean-up of a with statement or a finally block is not torn apart.) The return from a call that directly precedes
a try statement is left out too: lock.acquire(); try: ... finally: lock.release() is accepted as a whole.
"""
import dis
import os
import sys

from sim import hot
from sim import runtime as rt
from sim import sched

CLEANUP = ("__exit__", "__enter__", "close", "release", "acquire", "__del__")
# Functions of these packages are only called by the library itself (os.path, codecs ... are also called by lxml, which
# does not pass on every exception from there).
PACKAGES = tuple("%s%s%s" % (os.sep, p, os.sep) for p in ("pygeoif", "arrow", "zipfile"))
_after = {}


def after_call(code):
    """Offsets of instructions that follow a call under the same exception handler."""
    got = _after.get(code)
    if got is None:
        table = dis._parse_exception_table(code)

        def handler(off):
            return [(e.target, e.depth) for e in table if e.start <= off < e.end][:1]
        got = set()
        ins = [i for i in dis.get_instructions(code) if i.opname != "NOP"]
        for k in range(1, len(ins)):
            prev, i = ins[k - 1], ins[k]
            if prev.opname in ("CALL", "CALL_FUNCTION_EX", "CALL_INTRINSIC_1") and \
                    handler(prev.offset) == handler(i.offset) and not i.is_jump_target:
                # x.acquire() directly before try: ... finally: x.release() counts as part of the statement
                if k + 1 < len(ins) and i.opname.startswith(("POP_TOP", "STORE_")) and \
                        handler(ins[k + 1].offset) not in ([], handler(prev.offset)):
                    continue
                got.add(i.offset)
        _after[code] = got
    return got


_guarded = {}


def guarded(code, off):
    """Is the instruction inside a try or with statement?"""
    g = _guarded.get(code)
    if g is None:
        names = {i.offset: i.opname for i in dis.get_instructions(code)}
        g = _guarded[code] = [(e.start, e.end) for e in dis._parse_exception_table(code) if names.get(e.target) == "PUSH_EXC_INFO"]
    return any(a <= off < b for a, b in g)


class Injector:
    """Counts execution points in library frames and raises at the chosen one.

    under: names of functions, one of which must be active. calls: function entries only.
    """

    def __init__(self, at=None, kind=None, calls=False, under=()):
        self.at, self.kind, self.calls, self.under = at, kind, calls, frozenset(under)
        self.n = 0
        self.sites = {}          # place in the code -> numbers of the points there (while counting)
        self.exc = None
        self.where = None
        self.cache = {}
        self.unraisable = self.thread = None

    def _point(self, frame):
        if self.under:
            f = frame
            while f is not None and f.f_code.co_name not in self.under:
                f = f.f_back
            if f is None:
                return
        k = self.n
        self.n += 1
        if self.at is None:
            f = frame.f_back
            care = guarded(frame.f_code, frame.f_lasti) or \
                (f is not None and f.f_code.co_filename.startswith(rt.LIB) and guarded(f.f_code, f.f_lasti))
            lasting = hot.hot(frame) or f is not None and f.f_code.co_filename.startswith(rt.LIB) and hot.hot(f)
            self.sites.setdefault((frame.f_code, frame.f_lasti, care, lasting), []).append(k)
        elif k == self.at and self.exc is None:
            self.exc = rt.make_error(self.kind)
            self.where = "%s:%s in %s" % (frame.f_code.co_filename[len(rt.LIB):], frame.f_lineno, frame.f_code.co_name)
            sys.settrace(None)
            raise self.exc

    def entry(self, code):
        """Entry of a library function in a simulated thread."""
        k = self.n
        self.n += 1
        if k == self.at and self.exc is None:
            self.exc = rt.make_error(self.kind)
            self.where = "%s in %s" % (code.co_filename[len(rt.LIB):], code.co_name)
            raise self.exc

    def choose(self, x):
        """The point meant by fraction x of a counted execution: any point, or any place in the code and one of its points,
        or (often) any place where someone handles exceptions or touches state that outlives the call."""
        if not self.n:
            return None
        how = int(x * 1e9) % 6
        if how == 0:
            return int(x * self.n)
        places = [p for s, p in self.sites.items() if s[2 if how < 4 else 3]] if how > 1 else []
        places = places or list(self.sites.values())
        y = x * len(places)
        pts = places[int(y)]
        return pts[int((y - int(y)) * len(pts))]

    def _local(self, frame, event, arg):
        if event == "opcode" and frame.f_lasti in after_call(frame.f_code):
            self._point(frame)
        return self._local

    def _global(self, frame, event, arg):
        if self.exc is not None:
            return None
        fn = frame.f_code.co_filename
        ok = self.cache.get(fn)
        if ok is None:
            ok = self.cache[fn] = fn.startswith(rt.LIB)
        if not ok:
            b = frame.f_back
            if b is not None and b.f_code.co_filename.startswith(rt.LIB) and any(p in fn for p in PACKAGES) and \
                    frame.f_code.co_name not in CLEANUP:
                self._point(frame)
            return None
        self._point(frame)
        if self.calls or not after_call(frame.f_code):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return self._local

    def __enter__(self):
        self.thread = sched.me()
        if self.thread is not None:  # the scheduler drives this injector (function entries only)
            self.thread.injector = self
            return self
        self.old = sys.unraisablehook

        def hook(u):
            if u.exc_value is self.exc:
                self.unraisable = u
        sys.unraisablehook = hook
        if not self.calls:
            sys._getframe().f_trace_opcodes = True  # CPython 3.12 looks at this when tracing starts
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        if self.thread is not None:
            self.thread.injector = None
            return
        sys.settrace(None)
        sys.unraisablehook = self.old


def chain(e):
    """The exception and everything it was raised from or during."""
    out, todo = [], [e]
    while todo:
        x = todo.pop()
        if x is None or any(x is y for y in out):
            continue
        out.append(x)
        todo += [x.__cause__, x.__context__]
    return out
