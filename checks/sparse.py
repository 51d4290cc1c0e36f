"""C15: sparsified Gaussian processes."""
from mbv import TBB
TAIL = "CHECK_DEADLOCK FALSE\n"


def line(e):
    k = e["e"]
    if k == "new":
        return "new %d %d %s\n" % (e["max"], e["dim"], " ".join(str(c) for p in e["pos"] for c in p))
    if k in ("compute", "repeat"):
        return k + " %s\n" % " ".join(map(str, e["s"]))
    return "add %d\n" % e["p"] if k == "add" else k + "\n"


def c15(ctx):
    q = ctx.quick
    b = ctx.build({"sparse": (["sparse.cpp"], []), "sparse_tbb": (["sparse.cpp"], TBB + ["-ltbb"])})
    d = [ctx.pool.submit(ctx.design, "SparseMC", "SPECIFICATION Spec\nCONSTANTS Max = %d Coords = {0, 1, 3, 7} NPts = %d\n"
                         "INVARIANTS Bounded Subset KeepsAll Full\nPROPERTIES ClosestPair\n%s" % (m, 4 if q else 5, TAIL)) for m in (1, 2, 3)]
    n = 150 if q else 1500
    sc = []
    for i, (mb, st) in enumerate(((4, "FALSE"), (9, "FALSE"), (9, "TRUE"))):
        bs = ctx.simulate("SparseGen", "SPECIFICATION Spec\nCONSTANTS MaxOps = 14 MaxBatch = %d Stress = %s\nINVARIANT Emit\n%s" % (mb, st, TAIL), n if i < 2 else n // 4, 40, salt=140 + i, limit=n if i < 2 else n // 4)
        sc += ["".join(map(line, x)) for x in bs]
    for name in ("sparse", "sparse_tbb"):
        binary = b[name].result()
        ev = ctx.run_driver(binary, [], "".join(sc))
        ctx.check_traces(name, "SparseTrace", "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n" + TAIL, ev, chunk=40,
                         rerun=lambda i: ctx.run_driver(binary, [], sc[i]))
    for f in d:
        f.result()
    ctx.assumptions += ["points on an integer grid in 1 to 3 dimensions, batches of up to 9, limits 1 to 7; distances compared to 1e-3 grid units (ties are free)"]
