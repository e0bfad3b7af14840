"""Stand-in for the pybind11 module: forwards to the native engine, or to whatever the harness has put in place."""
import ctypes, json, os
_lib = ctypes.CDLL(os.environ["RT_ENGINE"]); _lib.rt_call.restype = ctypes.c_char_p
functions = ["validate", "validateOperator", "createProgram", "deleteProgram", "addToMessageBuffer", "processMessageBuffer", "processMessageBufferDebug", "getProgramEntryOperatorId", "getProgramEntryPorts", "getProgramOutputFilter"]
engine = None


def native(*a):
    r = json.loads(_lib.rt_call(json.dumps(a).encode()))
    if "error" in r: raise RuntimeError(r["error"])
    return r["ok"]


def _make(f):
    def g(*a):
        return getattr(engine, f)(*a) if engine is not None else native("." + f, *a)
    g.__name__ = f
    return g


for _f in functions: globals()[_f] = _make(_f)
