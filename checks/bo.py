"""C01-C06: the run loop."""
import json
from mbv import split

VARIANT = {("iters",): 0, ("iters", "goal", "total", "pred"): 1, ("pred", "total", "goal", "iters"): 2, ("goal", "total"): 3}


def script(b, rng):
    out = []
    for e in b:
        k = e["e"]
        if k == "new":
            c = e["cfg"]
            out.append("new %d %d %d %d %d %d %d %d %d %s %s" % (VARIANT[tuple(c["crit"])], c["iters"], c["hp"], c["ninit"], c["goal"],
                       c["total"], c["rn"], c["rd"], c["dout"], json.dumps(c, separators=(",", ":")), " ".join(map(str, c["pred"]))))
        elif k in ("eval", "add"):
            out.append("%s %d %s %d %s" % (k, e["ok"], e["why"].strip() or "-", e["at"], " ".join(map(str, e["y"]))))
        elif k == "start":
            out.append("start %d %s %d" % (e["reset"], e["afun"], rng.randrange(2)))
        elif k == "set":
            out.append("set %d %d" % (e["iters"], e["hp"]))
    return "\n".join(out) + "\n"


MC = """SPECIFICATION Spec
CONSTANTS MaxLen = %d MaxCalls = %d Iters = {0, 2} Hps = {0, 1, 2} NInits = {0, 1}
INVARIANTS TypeOK ModelUpToDate StatsSeePrevModel ResetCounters StopsOnTime BudgetRespected TuneSchedule
PROPERTIES AppendOnly FailureRecordsNothing TotMonotone
CHECK_DEADLOCK FALSE
"""
GEN = """SPECIFICATION Spec
CONSTANTS Mode = "%s" MaxCalls = %d MaxLen = %d
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TraceSpec
CONSTANT Focus = "%s"
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""


def run(ctx, focus, plan):
    b = ctx.build({"bo": (["bo.cpp"], [])})
    q = ctx.quick
    d = ctx.pool.submit(ctx.design, "BOMC", MC % ((3, 2) if q else (4, 3)))
    scripts = []
    for i, (mode, calls, ln, num) in enumerate(plan):
        if not q:
            num *= 12
        bs = ctx.simulate("BOGen", GEN % (mode, calls, ln), num, 160, salt=i, limit=num)
        scripts += [script(x, ctx.rng) for x in bs]
    binary = b["bo"].result()
    ev = ctx.run_driver(binary, [], "".join(scripts))
    ctx.check_traces("bo", "BOTrace", TRACE % focus, ev, rerun=lambda i: ctx.run_driver(binary, [], scripts[i]), chunk=150)
    d.result()
    ctx.assumptions += ["user components (model, acquisition, optimiser, statistics) are replaced by recording ones; "
                        "behaviours are random simulations of the specification up to %d calls" % max(p[1] for p in plan)]


def c01(ctx): run(ctx, "C01", [("single", 1, 8, 200), ("multi", 3, 12, 150), ("fault", 3, 10, 80)])
def c02(ctx): run(ctx, "C02", [("multi", 4, 14, 250), ("fault", 3, 12, 80)])
def c03(ctx): run(ctx, "C03", [("fault", 4, 12, 350)])
def c04(ctx): run(ctx, "C04", [("single", 1, 8, 100), ("multi", 3, 12, 100), ("fault", 3, 10, 100)])
def c05(ctx): run(ctx, "C05", [("single", 1, 10, 250), ("multi", 3, 12, 150), ("fault", 3, 10, 80)])
def c06(ctx): run(ctx, "C06", [("single", 1, 10, 250), ("multi", 3, 14, 150), ("fault", 3, 10, 80)])
