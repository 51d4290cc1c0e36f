"""C14: multi-output Gaussian processes."""
from mbv import TBB
TAIL = "CHECK_DEADLOCK FALSE\n"
KEYS = {"make": ("d",), "compute": ("d", "k", "xs"), "add": ("d", "x"), "setk": ("i", "v"), "setm": ("v",), "recompute": ("om", "fk"),
        "tune": (), "copy": ("t",), "save": ("p",), "load": ("p", "r"), "query": ("x",)}


def line(e):
    if e["e"] == "new":
        return "new\n"
    f = [e["e"], e["s"]]
    for k in KEYS[e["e"]]:
        f += e[k] if isinstance(e[k], list) else [int(e[k])]
    return " ".join(map(str, f + [int(e["ex"])])) + "\n"


def archived(ctx):
    """C12: multi-output models through archives."""
    q = ctx.quick
    suites = [("mg0", 0, []), ("mg2_tbb", 2, TBB + ["-ltbb"]), ("mg4", 4, [])]
    b = ctx.build({n: (["multigp.cpp"], ["-DVARIANT=%d" % v] + f) for n, v, f in suites})
    num, ops = (70, 18) if q else (400, 28)
    gen = {has: ctx.pool.submit(ctx.simulate, "MultiGPGen", "SPECIFICATION Spec\nCONSTANTS HasMean = %s MaxOps = %d Tuning = FALSE Saving = TRUE\nINVARIANT Emit\n%s"
                                % (has, ops, TAIL), num * n, ops + 4, 270 + n) for has, n in (("TRUE", 2), ("FALSE", 1))}
    for i, (n, v, f) in enumerate(suites):
        has = "TRUE" if v in (1, 2, 4) else "FALSE"
        sc = ["".join(map(line, x)) for x in gen[has].result()[(num if i == 2 else 0):][:num]]
        binary = b[n].result()
        ev = ctx.run_driver(binary, [], "".join(sc), timeout=900)
        ctx.check_traces(n, "MultiGPTrace", "SPECIFICATION TraceSpec\nCONSTANT HasMean = %s\nPOSTCONDITION TraceAccepted\n%s" % (has, TAIL), ev, chunk=20,
                         rerun=lambda i: ctx.run_driver(binary, [], sc[i]))


def c14(ctx):
    q = ctx.quick
    # variant: 0 data mean, 1 parametric user mean, 2 constant mean, 3 no mean, 4 parametric transformation of the data mean
    suites = [("m0", 0, [], True), ("m1", 1, [], True), ("m2_tbb", 2, TBB + ["-ltbb"], True), ("m3", 3, [], True),
              ("m4_tbb", 4, TBB + ["-ltbb"], True), ("m0_sparse", 0, ["-DSPARSE"], False)]
    probe = ctx.build({"multigp_probe": (["multigp_probe.cpp"], [])})["multigp_probe"]
    b = ctx.build({n: (["multigp.cpp"], ["-DVARIANT=%d" % v] + f) for n, v, f, _ in suites})
    d = [ctx.pool.submit(ctx.design, "MultiGPMC", "SPECIFICATION Spec\nCONSTANTS MaxPts = %d Ks = {1, 2} Mss = {1, 2} HasMean = %s\n"
                         "INVARIANTS ExactIsExact Paired\n%s" % (2 if q else 3, h, TAIL)) for h in ("TRUE", "FALSE")]
    num, ops = (100, 24) if q else (500, 32)
    gen = {}
    for i, (has, tune) in enumerate((("TRUE", "TRUE"), ("FALSE", "TRUE"), ("FALSE", "FALSE"))):
        gen[has, tune] = ctx.pool.submit(ctx.simulate, "MultiGPGen", "SPECIFICATION Spec\nCONSTANTS HasMean = %s MaxOps = %d Tuning = %s Saving = FALSE\nINVARIANT Emit\n%s"
                                         % (has, ops, tune, TAIL), num * 2, ops + 4, 170 + i)
    for i, (n, v, f, tune) in enumerate(suites):
        has = "TRUE" if v in (1, 2, 4) else "FALSE"
        bs = gen[has, "TRUE" if tune else "FALSE"].result()
        half = bs[(i % 2) * num:][:num] if tune else bs[:num]
        sc = ["".join(map(line, x)) for x in half]
        binary = b[n].result()
        ev = ctx.run_driver(binary, [], "".join(sc), timeout=900)
        ctx.check_traces(n, "MultiGPTrace", "SPECIFICATION TraceSpec\nCONSTANT HasMean = %s\nPOSTCONDITION TraceAccepted\n%s" % (has, TAIL), ev, chunk=20,
                         rerun=lambda i: ctx.run_driver(binary, [], sc[i]))
    for f in d:
        f.result()
    ev = ctx.run_driver(probe.result(), [], "")
    e = ev[-1]
    if e["e"] != "sparse" or not 0 < e["samples"] == e["observations"] == e["n"] <= 4:
        if not ctx.finding("multigp-sparse-recompute"):
            ctx.violation("multigp_probe", "a MultiGP over sparsified models does not pair its samples and observations", {"event": e, "trace": ev})
    ctx.assumptions += ["histories of at most %d operations over three models, at most 8 samples, 3 inputs, 3 outputs" % ops,
                        "numerical agreement within a tolerance scaled by the condition number (>= 1e-7 relative)"]
