"""C24: initial designs."""
import json
TAIL = "CHECK_DEADLOCK FALSE\n"


def c24(ctx):
    q = ctx.quick
    b = ctx.build({"design": (["design.cpp"], [])})
    d = ctx.pool.submit(ctx.design, "DesignMC", "SPECIFICATION Spec\nCONSTANTS B = %d N = 3\nINVARIANT Complete\n%s" % (1 if q else 2, TAIL))
    n = 300 if q else 3000
    bs = ctx.simulate("DesignGen", "SPECIFICATION Spec\nINVARIANT Emit\n" + TAIL, n, 4, salt=70, limit=n)
    sc = []
    for (x,) in bs:
        c = x["cfg"]
        sc.append("%s %d %d %d %d %d %s\n" % (c["k"], c["dim"], c["n"], c["bins"], c["bounded"], x["runs"], json.dumps(c, separators=(",", ":"))))
    binary = b["design"].result()
    ev = ctx.run_driver(binary, [], "".join(sc), timeout=400)
    ctx.check_traces("design", "DesignTrace", "SPECIFICATION TraceSpec\nINVARIANT Complete\nPOSTCONDITION TraceAccepted\n" + TAIL, ev, chunk=60,
                     rerun=lambda i: ctx.run_driver(binary, [], sc[i]))
    d.result()
    ctx.assumptions += ["dimension at most 4, at most 25 samples (200 for random points), at most 125 grid points; the order of the points is free"]
