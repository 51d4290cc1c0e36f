"""C07: named template arguments."""
import json, os, subprocess
from mbv import CheckError, REPO
TAIL = "CHECK_DEADLOCK FALSE\n"
FAMILY = {"BOptimizer": ("bayes_opt::BOptimizer", "Fun<1, 0>", 0), "CBOptimizer": ("xbo::CBOptimizer", "Fun<1, 1>", 1), "Ehvi": ("xbo::Ehvi", "Fun<2, 0>", 0),
          "Parego": ("xbo::Parego", "Fun<2, 0>", 2), "HPOpt": ("bayes_opt::BOptimizerHPOpt", "Fun<1, 0>", 3), "IMGPO": ("bayes_opt::experimental::IMGPO", "Fun<1, 0>", 4)}


def component(o, k, v):
    if k in ("stats", "stop"):
        t = {1: "{0}<1>", 2: "{0}<2>", 3: "{1}3", 4: "{1}4"}[v].format("Stat" if k == "stats" else "Stop", "Stats" if k == "stats" else "Stop")
    else:
        t = {"init": "Init<%d>", "model": "Model<0, %d>", "cmodel": "Model<1, %d>", "pmodel": "Model<2, %d>", "acqui": "Acqui<%d>", "acquiopt": "AcquiOpt<%d>"}[k] % v
    kw = {"init": "initfun", "model": "modelfun", "cmodel": "experimental::constraint_modelfun", "pmodel": "xbo::parego_modelfun", "acqui": "acquifun",
          "stats": "statsfun", "stop": "stopcrit", "acquiopt": "acquiopt"}[k]
    return "limbo::%s<%s>" % (kw, t) if not kw.startswith("xbo") else "%s<%s>" % (kw, t)


def unit(confs):
    s = '#include "named.hpp"\nint main()\n{\n'
    for c in confs:
        cls, fun, fam = FAMILY[c["opt"]]
        targs = ", ".join(["Params"] + [component(c["opt"], k, v) for k, v in c["args"]])
        s += "    Run<%s<%s>, %s, %d>::go(R\"(%s %s)\");\n" % (cls, targs, fun, fam, json.dumps(c["opt"]), json.dumps(c["args"], separators=(",", ":")))
    return s + "}\n"


def c07(ctx):
    q = ctx.quick
    ctx.design("NamedMC", "SPECIFICATION Spec\nCONSTANT Full = TRUE\nINVARIANTS AllFound ValidConfs\n" + TAIL)
    bs = ctx.simulate("NamedGen", "SPECIFICATION Spec\nINVARIANT Emit\n" + TAIL, 900 if q else 6000, 14, salt=70)
    per = 26 if q else 150
    pick = []
    for o in FAMILY:
        own = [b for b in bs if b["opt"] == o]
        own.sort(key=lambda b: -len(b["args"]))   # mostly long ones, some short
        pick += own[:per - per // 4] + ctx.rng.sample(own[per - per // 4:], min(per // 4, max(0, len(own) - per + per // 4)))
    ehvi = os.path.join(ctx.work, "ehvi.o")
    subprocess.run(["g++", "-w", "-O1", "-r", "-I" + REPO + "/src", "-o", ehvi] + [REPO + "/src/ehvi/" + f for f in ("ehvi_hvol.cc", "ehvi_calculations.cc", "ehvi_sliceupdate.cc", "helper.cc")], check=True)
    flags = ["-DUSE_NLOPT", "-O0"]
    n = 8 if q else 48
    units = [[pick[i] for i in range(len(pick)) if i % n == j] for j in range(n)]
    specs = {}
    for j, u in enumerate([[]] + units):
        p = os.path.join(ctx.work, "named_%d.cpp" % j)
        with open(p, "w") as f:
            f.write(unit(u))
        specs["named_%d" % j] = ([p, ehvi], flags)
    b = ctx.build(specs)
    b["named_0"].result()   # the components alone have to compile
    events, where = [], []
    for j in range(1, n + 1):
        try:
            binary = b["named_%d" % j].result()
        except CheckError as e:
            ctx.violation("named", "a valid configuration does not compile", {"event": units[j - 1], "trace": [], "detail": str(e)[-3000:]})
            continue
        ev = ctx.run_driver(binary, [], "")
        events.append(ev)
    for j, ev in enumerate(events):
        ctx.check_traces("named", "NamedTrace", "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n" + TAIL, ev)
    ctx.assumptions += ["%d configurations of %d optimisers; defaults of the acquisition function and its optimiser are recognised by their type" % (len(pick), len(FAMILY))]
