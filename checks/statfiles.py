"""C08: statistics."""
import json
from mbv import REPO

MC = """SPECIFICATION Spec
CONSTANTS MaxLen = %d MaxCalls = %d
INVARIANTS Story OnePerIteration Silent
PROPERTY FilesGrow
CHECK_DEADLOCK FALSE
"""
GEN = """SPECIFICATION Spec
CONSTANTS MaxCalls = %d MaxLen = %d
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""


def script(b):
    out = []
    for e in b:
        k = e["e"]
        if k == "new":
            c = e["cfg"]
            out.append("new %s %d %d %d %d %d %d %d %s" % (c["kind"], c["on"], c["din"], c["dout"], c["bins"], c["iters"], c["hp"], c["ninit"],
                                                           json.dumps(c, separators=(",", ":"))))
        elif k in ("eval", "add"):
            out.append("%s %d %s %d %s" % (k, e["ok"], e["why"] or "-", e["at"], " ".join(map(str, e["y"]))))
        elif k == "start":
            out.append("start %d %s" % (e["reset"], e["afun"]))
        elif k == "set":
            out.append("set %d %d" % (e["iters"], e["hp"]))
    return "\n".join(out) + "\n"


def c08(ctx):
    q = ctx.quick
    b = ctx.build({"stat": (["stat.cpp", ctx.compile_c(REPO + "/src/hv/hypervol.c")], [])})
    d = ctx.pool.submit(ctx.design, "StatMC", MC % ((3, 2) if q else (4, 3)))
    scripts = []
    for i, (calls, ln, num) in enumerate([(1, 8, 100), (3, 12, 200), (4, 16, 100)]):
        num *= 1 if q else 8
        scripts += [script(x) for x in ctx.simulate("StatGen", GEN % (calls, ln), num, 200, salt=i, limit=num)]
    binary = b["stat"].result()
    ev = ctx.run_driver(binary, [], "".join(scripts))
    ctx.check_traces("stat", "StatTrace", TRACE, ev, rerun=lambda i: ctx.run_driver(binary, [], scripts[i]), chunk=60)
    d.result()
    ctx.assumptions += ["files have six significant digits (values are chosen to need no more)", "one object per directory and second",
                        "header lines (starting with #) are ignored"]
