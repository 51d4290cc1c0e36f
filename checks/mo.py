"""C25, C26: Pareto sets and hypervolumes."""
import os
from mbv import REPO
TAIL = "CHECK_DEADLOCK FALSE\n"
T = ["-DUSE_TBB", "-DUSE_TBB_ONEAPI", "-ltbb"]


def line(e):
    if e["e"] == "new":
        return "new %d %d\n" % (e["d"], e["sc"])
    return "add %s\n" % " ".join(map(str, list(e["v"]) + list(e["cand"]) + list(e["hi"])))


def run(ctx, focus):
    q = ctx.quick
    srcs = ["mo.cpp"] + [REPO + "/src/ehvi/" + f for f in ("ehvi_hvol.cc", "ehvi_calculations.cc", "ehvi_sliceupdate.cc", "helper.cc")]
    obj = ctx.compile_c(REPO + "/src/hv/hypervol.c")
    b = ctx.build({"mo": (srcs + [obj], []), "mot": (srcs + [obj], T)})
    d = ctx.pool.submit(ctx.design, "MOMC", "SPECIFICATION Spec\nCONSTANTS K = 3 N = %d\nINVARIANTS SameVolume NoneDominated EveryoneCovered\nPROPERTY Grows\n%s" %
                        (3 if q else 4, TAIL))
    n = 250 if q else 2500
    bs = ctx.simulate("MOGen", "SPECIFICATION Spec\nCONSTANT Ks <- K\nINVARIANT Emit\n" + TAIL, n, 20, salt=80, limit=n)
    sc = ["".join(map(line, x)) for x in bs]
    for v in ("mo", "mot"):
        binary = b[v].result()
        part = sc if v == "mo" else sc[:len(sc) // 3]
        if v == "mot" and focus == "C26":
            continue
        ev = ctx.run_driver(binary, [], "".join(part), timeout=400)
        ctx.check_traces(v, "MOTrace", 'SPECIFICATION TraceSpec\nCONSTANT Focus = "%s"\nPOSTCONDITION TraceAccepted\n%s' % (focus, TAIL), ev, chunk=40,
                         rerun=lambda i: ctx.run_driver(binary, [], part[i]))
    d.result()
    ctx.assumptions += ["integer objective vectors, 2 to 6 objectives, at most 14 points (Pareto sets: also multiples and translates of the vectors, of any size); points are never below the reference point"]


def c25(ctx): run(ctx, "C25")


def c26(ctx):
    run(ctx, "C26")
    ctx.assumptions += ["expected improvements are decided in the limit of a certain candidate (standard deviation 1e-6, away from cell boundaries)"]
