"""C09-C12: Gaussian process models."""
import json

MC = """SPECIFICATION Spec
CONSTANTS Slots = {1} Places = {1} MaxData = 2 Vs = {1, 2} MaxLevel = %d
INVARIANTS InvFresh DerivedCurrent Canonical KeepsExact LoadExact TuneExact
VIEW View
CONSTRAINT Depth
CHECK_DEADLOCK FALSE
"""
GEN = """SPECIFICATION Spec
CONSTANTS Slots = {1, 2} Places = {1, 2, 3} Mode = "%s" MaxOps = %d MaxData = %d Variants = {%s}
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TraceSpec
CONSTANTS Slots = {1, 2} Places = {1, 2, 3} Focus = "%s"
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""


def script(b):
    out = []
    for e in b:
        k = e["e"]
        f = [k]
        if k == "compute":
            f += [e["s"], int(e["ck"]), e["din"], e["dout"]] + [z for p in e["d"] for z in p]
        elif k != "new":
            f += [int(e[n]) for n in ("s", "t", "x", "y", "din", "dout", "v", "om", "fk", "p", "rec", "how") if n in e]
        out.append(" ".join(map(str, f)))
    return "\n".join(out) + "\n"


def run(ctx, focus, mode, variants, num, ops, maxdata=9):
    q = ctx.quick
    b = ctx.build({"gp%d" % v: (["gp.cpp"], ["-DVARIANT=%d" % v]) for v in variants})
    d = ctx.pool.submit(ctx.design, "GPMC", MC % (8 if q else 12))
    if not q:
        num, ops = num * 8, ops + 10
    bs = ctx.simulate("GPGen", GEN % (mode, ops, maxdata, ", ".join(map(str, variants))), num, ops + 5)
    # fewer, longer histories with more samples
    bs += ctx.simulate("GPGen", GEN.replace("Slots = {1, 2}", "Slots = {1}") % (mode, ops + 22, maxdata + 4, ", ".join(map(str, variants))), num // 5, ops + 27, salt=7)
    groups = {v: [script(x) for x in bs if x[0]["variant"] == v] for v in variants}

    def one(v):
        binary = b["gp%d" % v].result()
        return binary, ctx.run_driver(binary, [], "".join(groups[v]), timeout=900)
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        res = list(ex.map(one, variants))
    events, scripts, bins = [], [], []
    for v, (binary, ev) in zip(variants, res):
        events += ev
        scripts += groups[v]
        bins += [binary] * len(groups[v])
        if ev and ev[-1]["e"] in ("crash", "hang"):
            break   # later traces of this binary do not exist
    ctx.check_traces("gp-" + mode, "GPTrace", TRACE % focus, events, chunk=60,
                     rerun=lambda i: ctx.run_driver(bins[i], [], scripts[i]))
    d.result()
    ctx.assumptions += ["numerical agreement is decided within a tolerance scaled by the condition number (>= 1e-7 relative)",
                        "histories of at most %d operations and %d samples, dimension at most 3, two outputs" % (ops + 22, maxdata + 4)]


def c09(ctx): run(ctx, "C09", "pred", [0, 1, 2, 3, 4, 5], 420, 20)
def c10(ctx): run(ctx, "C10", "lik", [0, 1, 2, 3, 4, 5], 420, 22)
def c11(ctx): run(ctx, "C11", "hp", [0, 1, 3, 4, 5], 240, 18, 7)
def c12(ctx):
    import multigp
    multigp.archived(ctx)
    run(ctx, "C12", "arch", [0, 1, 2, 3, 4, 5], 420, 20)
