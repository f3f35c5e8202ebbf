import importlib
CHECKS = {}
class Check:
    def __init__(self, pid, run, explanation, assumptions=()):
        self.pid = pid; self.run = run
        self.spec = {"explanation": explanation, "assumptions": list(assumptions)}
def check(pid, explanation, assumptions=()):
    def deco(fn):
        CHECKS[pid] = Check(pid, fn, explanation, assumptions); return fn
    return deco
import sys
sys.modules["checks"] = sys.modules[__name__]
for m in ("c_htable", "c_rbtree", "c_buffer", "c_list", "c_value", "c_code", "c_hash", "c_mem", "c_cmd", "c_stream", "c_defs", "c_threads", "c_reads"):
    importlib.import_module(m)
