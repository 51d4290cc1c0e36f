"""C22: parallel tools."""
import json
TAIL = "CHECK_DEADLOCK FALSE\n"
T = ["-DUSE_TBB", "-DUSE_TBB_ONEAPI", "-ltbb"]


def c22(ctx):
    q = ctx.quick
    b = ctx.build({"par": (["par.cpp"], []), "part": (["par.cpp"], T)})
    d = ctx.pool.submit(ctx.design, "ParMC", "SPECIFICATION Spec\nCONSTANTS N = %d W = 2 Keys = {%s}\nINVARIANTS Result ReturnLast\nPROPERTY Terminates\n%s" %
                        ((3, "0, 1, 2", TAIL) if q else (4, "0, 1, 2", TAIL)))
    n = 500 if q else 5000
    bs = ctx.simulate("ParGen", "SPECIFICATION Spec\nCONSTANT MaxN = %d\nINVARIANT Emit\n%s" % (40 if q else 70, TAIL), n, 4, salt=50, limit=n)
    sc = []
    for (o,) in bs:
        sc.append(" ".join(map(str, [o["k"], o["lo"], o["n"], o["init"], int(o["desc"]), o["inner"], json.dumps(o, separators=(",", ":"))] + list(o["keys"]))) + "\n")
    for v in ("part", "par"):
        binary = b[v].result()
        part = sc if v == "part" else sc[:len(sc) // 2]
        ev = ctx.run_driver(binary, [], "".join(part), timeout=400)
        ctx.check_traces(v, "ParTrace", "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n" + TAIL, ev, chunk=70,
                         rerun=lambda i: rerun(ctx, binary, part[i]))
    d.result()
    ctx.assumptions += ["schedules of the real threads are sampled (random delays, 8 cores), those of the specification are exhaustive for small sizes",
                        "bodies do not throw"]


def rerun(ctx, binary, script):
    # the failure may depend on the schedule: repeat the operation
    ev = ctx.run_driver(binary, [], script * 30)
    return ev
