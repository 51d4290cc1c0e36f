"""C16: kernel and mean functions."""
TAIL = "CHECK_DEADLOCK FALSE\n"


def line(e):
    k = e["e"]
    if k == "new":
        return "new\n"
    if k == "make":
        return "make %s %d %d\n" % (e["fam"], e["dim"], e["noise"])
    if k == "set":
        return "set %d %d\n" % (e["o"], e["v"])
    if k == "copy":
        return "copy %d\n" % e["o"]
    if k == "assign":
        return "assign %d %d\n" % (e["o"], e["p"])
    if k == "data":
        return "data %d\n" % e["d"]
    return "%s %d %d %d %d %d\n" % (k, e["o"], e["x"], e["y"], e["i"], e["j"])


def c16(ctx):
    q = ctx.quick
    b = ctx.build({"kern": (["kern.cpp"], [])})
    d = ctx.pool.submit(ctx.design, "KernMC", "SPECIFICATION Spec\nCONSTANTS MaxObj = %d Versions = {1, 2, 3}\n"
                        "INVARIANTS Agree NoiseOK\nPROPERTIES Independent\n%s" % (2 if q else 3, TAIL))
    n = 300 if q else 3000
    bs = ctx.simulate("KernGen", "SPECIFICATION Spec\nCONSTANTS MaxOps = 32\nINVARIANT Emit\n" + TAIL, n, 60, salt=130, limit=n)
    sc = ["".join(map(line, x)) for x in bs]
    binary = b["kern"].result()
    ev = ctx.run_driver(binary, [], "".join(sc))
    ctx.check_traces("kern", "KernTrace", "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n" + TAIL, ev, chunk=80,
                     rerun=lambda i: ctx.run_driver(binary, [], sc[i]))
    d.result()
    ctx.assumptions += ["eleven parameter vectors, eight points, four data sets, dimensions 1-4 (kernels) and 1-3 (means); values compared to 1e-11 with an "
                        "independent long double formula, gradients to 1e-6 with numerical derivatives of that formula"]
