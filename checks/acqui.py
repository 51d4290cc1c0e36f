"""C17: acquisition functions."""
TAIL = "CHECK_DEADLOCK FALSE\n"


def tab(mu, sd):
    return " ".join(str(v) for r in mu for v in r) + " " + " ".join(map(str, sd))


def line(e):
    k = e["e"]
    if k == "new":
        c = e["cfg"]
        return "new %d %d %d %d %s %s\n" % (c["k"], c["din"], c["dout"], len(e["sd"]), tab(e["mu"], e["sd"]), tab(e["cmu"], e["csd"]))
    if k == "make":
        return "make %s %d\n" % (e["kind"], e["it"])
    if k == "eval":
        return "eval %d %s %d\n" % (e["o"], e["a"], e["x"])
    return "%s %d %s\n" % (k, e["x"], tab(e["mu"], e["sd"]))


def c17(ctx):
    q = ctx.quick
    b = ctx.build({"acqui": (["acqui.cpp"], [])})
    d = ctx.pool.submit(ctx.design, "AcquiMC", "SPECIFICATION Spec\nCONSTANTS MaxSamples = %d AllowRetrain = FALSE\n"
                        "INVARIANTS Fresh EIPositive EICertain EIMonotone\n%s" % (3 if q else 4, TAIL))
    n = 300 if q else 3000
    bs = ctx.simulate("AcquiGen", "SPECIFICATION Spec\nCONSTANTS MaxOps = 24 NPts = 4\nINVARIANT Emit\n" + TAIL, n, 60, salt=120, limit=n)
    sc = ["".join(map(line, x)) for x in bs]
    binary = b["acqui"].result()
    ev = ctx.run_driver(binary, [], "".join(sc))
    ctx.check_traces("acqui", "AcquiTrace", "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n" + TAIL, ev, chunk=80,
                     rerun=lambda i: ctx.run_driver(binary, [], sc[i]))
    d.result()
    ctx.assumptions += ["the model plugged in gives integer means and deviations at four points; values compared to 1e-4 (2.5e-2 for the constrained improvement)",
                        "an expected-improvement object is used with one aggregator and a model that only gains data (its documented use)"]
