"""C29: multi-objective optimisers (scalarisation, one model per objective, expected hypervolume improvement)."""
import json, os
from mbv import REPO
TAIL = "CHECK_DEADLOCK FALSE\n"
T = ["-DUSE_TBB", "-DUSE_TBB_ONEAPI", "-ltbb"]


def parego_line(e):
    if e["e"] == "new":
        c = e["cfg"]
        return "new %s %d %d %d %d %d %s\n" % (e["mode"], c["d"], c["rho"], c["ninit"], c["iters"], c["hp"], json.dumps(c, separators=(",", ":")))
    if e["e"] == "compute":
        return "compute %d %d %s\n" % (e["d"], len(e["xs"]), " ".join("%d %s" % (x, " ".join(map(str, y))) for x, y in zip(e["xs"], e["ys"])))
    if e["e"] == "add":
        return "add %d %s\n" % (e["x"], " ".join(map(str, e["y"])))
    if e["e"] == "start":
        return "start %d\n" % e["reset"]
    if e["e"] == "eval":
        return "eval %d %s\n" % (e["ok"], " ".join(map(str, e["y"])))
    return e["e"] + "\n"


def parego(ctx, b):
    q = ctx.quick
    n = 150 if q else 2000
    sc = []
    for i, m in enumerate(("model", "run")):
        bs = ctx.simulate("ParegoGen", "SPECIFICATION Spec\nCONSTANTS MaxCalls = %d MaxLen = 14 Mode = \"%s\"\nINVARIANT Emit\n%s" % (12 if m == "model" else 4, m, TAIL), n, 120, salt=96 + i, limit=n)
        sc += ["".join(map(parego_line, x)) for x in bs]
    binary = b["parego"].result()
    ev = ctx.run_driver(binary, [], "".join(sc), timeout=400)
    ctx.check_traces("parego", "ParegoTrace", "SPECIFICATION TraceSpec\nINVARIANT TrainedOnAll\nPOSTCONDITION TraceAccepted\n" + TAIL, ev, chunk=80,
                     rerun=lambda i: ctx.run_driver(binary, [], sc[i]))


def ehvi_line(e):
    if e["e"] == "new":
        c = e["cfg"]
        return "new %s %d %d %d %d %d %s\n" % (e["mode"], c["ninit"], c["iters"], c["rx"], c["ry"], e["lazy"], json.dumps(c, separators=(",", ":")))
    if e["e"] == "add":
        return "add %d %d %s\n" % (e["x"], e["ok"], " ".join(map(str, e["y"])))
    if e["e"] == "start":
        return "start %d\n" % e["reset"]
    if e["e"] == "eval":
        return "eval %d %s\n" % (e["ok"], " ".join(map(str, e["y"])))
    return e["e"] + "\n"


def ehvi(ctx, b):
    q = ctx.quick
    n = 150 if q else 2000
    sc = []
    for i, m in enumerate(("multi", "run")):
        bs = ctx.simulate("EhviGen", "SPECIFICATION Spec\nCONSTANTS MaxCalls = %d MaxLen = 14 Mode = \"%s\"\nINVARIANT Emit\n%s" % (14 if m == "multi" else 4, m, TAIL), n, 120, salt=98 + i, limit=n)
        sc += ["".join(map(ehvi_line, x)) for x in bs]
    for v in ("ehvi", "ehvit"):
        binary = b[v].result()
        ev = ctx.run_driver(binary, [], "".join(sc), timeout=400)
        ctx.check_traces(v, "EhviTrace", "SPECIFICATION TraceSpec\nINVARIANTS FreshAtEvaluation Counters\nPOSTCONDITION TraceAccepted\n" + TAIL, ev, chunk=60,
                         rerun=lambda i: ctx.run_driver(binary, [], sc[i]))


def c29(ctx):
    q = ctx.quick
    ehs = [REPO + "/src/ehvi/" + f for f in ("ehvi_hvol.cc", "ehvi_calculations.cc", "ehvi_sliceupdate.cc", "helper.cc")]
    b = ctx.build({"parego": (["parego.cpp"], []), "ehvi": (["ehvi.cpp"] + ehs, []), "ehvit": (["ehvi.cpp"] + ehs, T)})
    d = [ctx.pool.submit(ctx.design, "ParegoMC", "SPECIFICATION Spec\nCONSTANTS MaxLen = 3 MaxCalls = %d\nINVARIANT TrainedOnAll\n%s" % (2 if q else 3, TAIL)),
         ctx.pool.submit(ctx.design, "EhviMC", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d MaxCalls = 2 MaxY = %d\nINVARIANTS FreshAtEvaluation Counters ValueSane\n%s" %
                         ((2, 2, TAIL) if q else (3, 2, TAIL)))]
    parego(ctx, b)
    ehvi(ctx, b)
    for x in d:
        x.result()
    ctx.assumptions += ["objectives are small integers; the weights of ParEGO are read off unit vectors, the first observations of every history; expected improvements are "
                        "compared with tables (values x 10000, tolerance 40); two objectives in the runs of Ehvi, whose models are mocks; up to 4 calls and 20 evaluations"]
