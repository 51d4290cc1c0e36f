"""C28: tree-based optimisation."""

TAIL = "CHECK_DEADLOCK FALSE\n"
MC = "SPECIFICATION Spec\nCONSTANTS D = %d MaxCut = %d Iters = %d\nINVARIANTS Partition Balanced Paired\nPROPERTY OnlyFresh\n" + TAIL


def script(b):
    out = []
    for e in b:
        if e["e"] == "new":
            out.append("new %d %d %s %s %s" % (e["dim"], e["seed"], e["kind"], e["model"], e["afun"]))
        else:
            out.append("start %d %d" % (e["reset"], e["iters"]))
    return "\n".join(out) + "\n"


def c28(ctx):
    q = ctx.quick
    b = ctx.build({"tree": (["tree.cpp"], [])})
    d = [ctx.pool.submit(ctx.design, "TreeMC", MC % x) for x in ((1, 3, 3), (2, 3, 3)) + (() if q else ((2, 4, 4), (3, 3, 3)))]
    n = 200 if q else 3000
    sc = [script(x) for x in ctx.simulate("TreeGen", "SPECIFICATION Spec\nCONSTANT MaxCalls = 4\nINVARIANT Emit\n" + TAIL, n, 20, salt=280, limit=n)]
    binary = b["tree"].result()
    ev = ctx.run_driver(binary, [], "".join(sc), timeout=700)
    ctx.check_traces("tree", "TreeTrace", "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n" + TAIL, ev, chunk=30,
                     rerun=lambda i: ctx.run_driver(binary, [], sc[i]))
    for x in d:
        x.result()
    ctx.assumptions += ["functions that do not fail, no initial design, at most 4 calls of at most 30 iterations, cells not smaller than 3^-18"]
