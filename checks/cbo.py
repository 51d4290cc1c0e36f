"""C27: constrained optimisation."""
import json
TAIL = "CHECK_DEADLOCK FALSE\n"


def line(e):
    if e["e"] == "new":
        c = e["cfg"]
        return "new %d %d %d %d %d %s\n" % (c["dout"], c["ncon"], c["ninit"], c["iters"], c["hp"], json.dumps(c, separators=(",", ":")))
    if e["e"] == "start":
        return "start %d\n" % e["reset"]
    return "eval %d %s\n" % (e["ok"], " ".join(map(str, e["y"])))


def c27(ctx):
    q = ctx.quick
    b = ctx.build({"cbo": (["cbo.cpp"], [])})
    d = ctx.pool.submit(ctx.design, "CBOMC", "SPECIFICATION Spec\nCONSTANTS MaxLen = 3 MaxCalls = %d\nINVARIANTS Trained NoConNoModel Counters BestFeasible\n%s" %
                        (2 if q else 3, TAIL))
    n = 200 if q else 3000
    sc = []
    for i, f in enumerate(("FALSE", "TRUE")):
        bs = ctx.simulate("CBOGen", "SPECIFICATION Spec\nCONSTANTS MaxCalls = 4 MaxLen = 16 Faults = %s\nINVARIANT Emit\n%s" % (f, TAIL), n, 150, salt=90 + i, limit=n)
        sc += ["".join(map(line, x)) for x in bs]
    binary = b["cbo"].result()
    ev = ctx.run_driver(binary, [], "".join(sc), timeout=400)
    ctx.check_traces("cbo", "CBOTrace", "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n" + TAIL, ev, chunk=80,
                     rerun=lambda i: ctx.run_driver(binary, [], sc[i]))
    d.result()
    ctx.assumptions += ["constraint values are 0 or 1 (feasible: product > 0); recording models, acquisition and optimiser; up to 4 calls and 16 evaluations"]
