"""Which functions of the library touch state that outlives a call.

Only a hint for the search (where to preempt or to strike): it never decides anything.
"""
import dis
import enum
import types

MUTATORS = {"append", "add", "clear", "update", "pop", "setdefault", "extend", "insert", "remove", "popitem", "discard",
            "appendleft", "popleft", "move_to_end", "sort", "reverse", "acquire", "release", "wait", "notify", "set",
            "__setitem__", "__delitem__", "__setattr__", "cache_clear", "put", "get_nowait", "put_nowait", "setattr",
            "delattr", "__dict__", "register_namespace", "seek", "chdir", "setlocale", "setrecursionlimit"}
QUIET = (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type, str, bytes, int, float, bool, tuple,
         frozenset, type(None), enum.Enum)
cache = {}


def shared(v):
    """Is a module-level value something that can change?"""
    if isinstance(v, QUIET):
        return False
    m = type(v).__module__
    return not (m in ("logging", "re", "typing", "functools") or m.startswith(("lxml", "xml.")))


def names_of(code):
    """(strong, globals used) of a code object."""
    strong = False
    glob = set()
    ins = [i for i in dis.get_instructions(code) if i.opname not in ("CACHE", "RESUME", "NOP")]
    init = code.co_name in ("__init__", "__new__", "__post_init__")
    for k, i in enumerate(ins):
        prev = ins[k - 1] if k else None
        op, arg = i.opname, i.argval
        if op in ("STORE_GLOBAL", "DELETE_GLOBAL", "STORE_DEREF", "IMPORT_NAME"):
            strong = True
        elif op in ("STORE_ATTR", "DELETE_ATTR") and prev is not None:
            own = prev.opname.startswith("LOAD_FAST") and (init and prev.argval == "self" or prev.argval not in (
                "self", "cls", "obj") and arg in ("text", "tail"))
            strong = strong or not own
        elif op in ("STORE_SUBSCR", "DELETE_SUBSCR"):
            strong = strong or any(x.opname in ("LOAD_GLOBAL", "LOAD_ATTR", "LOAD_DEREF") for x in ins[max(0, k - 4):k])
        elif op == "LOAD_GLOBAL":
            glob.add(arg)
        elif op in ("LOAD_ATTR", "LOAD_METHOD") and arg in MUTATORS:
            strong = strong or prev is not None and (prev.opname in ("LOAD_GLOBAL", "LOAD_ATTR", "LOAD_DEREF", "CALL")
                                                     or prev.argval in ("self", "cls"))
    return strong, glob


def hot(frame):
    """Does the function of this frame touch lasting state?"""
    code = frame.f_code
    got = cache.get(code)
    if got is None:
        strong, glob = names_of(code)
        g = frame.f_globals
        got = cache[code] = bool(strong or any(n in MUTATORS or n in g and shared(g[n]) for n in glob))
    return got
