"""C18-C20: inner optimisers."""
import json

TAIL = "CHECK_DEADLOCK FALSE\n"
T = ["-DUSE_TBB", "-DUSE_TBB_ONEAPI", "-ltbb"]


def step_script(b):
    out = []
    for e in b:
        if e["e"] == "new":
            c = e["cfg"]
            out.append(" ".join(map(str, ["new", c["alg"], c["u"], c["iters"], int(c["bounded"]), c["dim"], c["eps"], c["gamma2"], int(c["nesterov"]),
                       json.dumps(c, separators=(",", ":")), json.dumps(e["start"], separators=(",", ":"))] + list(e["start"]))))
        else:
            out.append("ev %d %s" % (e["v"], " ".join(map(str, e["g"]))))
    return "\n".join(out) + "\n"


def steps(ctx, focus, b, nums):
    q = ctx.quick
    d = ctx.pool.submit(ctx.design, "OptMC", "SPECIFICATION Spec\nCONSTANTS MaxIters = %d D = %d\nINVARIANTS InBox Budget DeltaRange NeverWorse\n%s" %
                        ((3, 1, TAIL) if q else (4, 1, TAIL)))
    sc = []
    for i, (mode, n) in enumerate(nums):
        n = n if q else n * 10
        bs = ctx.simulate("OptGen", 'SPECIFICATION Spec\nCONSTANT Mode = "%s"\nINVARIANT Emit\n%s' % (mode, TAIL), n, 90, salt=10 + i, limit=n)
        sc += [step_script(x) for x in bs]
    binary = b.result()
    ev = ctx.run_driver(binary, [], "".join(sc))
    ctx.check_traces("steps", "OptTrace", 'SPECIFICATION TraceSpec\nCONSTANT Focus = "%s"\nPOSTCONDITION TraceAccepted\n%s' % (focus, TAIL),
                     ev, chunk=250, rerun=lambda i: ctx.run_driver(binary, [], sc[i]))
    d.result()


def c20(ctx):
    b = ctx.build({"opt": (["opt.cpp"], [])})
    steps(ctx, "C20", b["opt"], [("short", 800), ("long", 25), ("small", 25)])
    ctx.assumptions += ["one set of learning rates per optimiser; Adam checked for at most 5 iterations, gradient ascent for 8, Rprop for 62"]


def box_scripts(ctx, kinds, n, salt):
    bs = ctx.simulate("BoxGen", "SPECIFICATION Spec\nCONSTANTS Kinds = {%s} Native = {%s} Grad = {%s} MaxCalls = 4\nINVARIANT Emit\n%s" %
                      (quoted(kinds), quoted(NATIVE), quoted(GRAD), TAIL), n, 20, salt=salt, limit=n)
    return ["".join("new %s\n" % e["kind"] if e["e"] == "new" else "call %d %d %d %s\n" %
                    (e["bounded"], e["dim"], e["obj"], " ".join(e["start"])) for e in x) for x in bs]


def engines(ctx, b):
    n = 600 if ctx.quick else 8000
    sc = box_scripts(ctx, [k for k in GRAD + NOGRAD if "chain" not in k and "rep" not in k], n, 31)
    binary = b.result()
    ev = ctx.run_driver(binary, [], "".join(sc), timeout=400)
    ctx.check_traces("engines", "EngineTrace", "SPECIFICATION TraceSpec\nCONSTANT Iterations = 60\nPOSTCONDITION TraceAccepted\n" + TAIL, ev, chunk=400,
                     rerun=lambda i: ctx.run_driver(binary, [], sc[i]))


def bounded(ctx):
    q = ctx.quick
    b = ctx.build({"box": (["box.cpp"], []), "boxt": (["box.cpp"], T)})
    d = ctx.pool.submit(ctx.design, "BoxMC", "SPECIFICATION Spec\nINVARIANTS InBox Dims\nPROPERTY ReturnInBox\n" + TAIL)
    n = 1500 if q else 20000
    sc = box_scripts(ctx, NATIVE + GRAD + NOGRAD, n, 30)

    def one(v, part):
        binary = b[v].result()
        ev = ctx.run_driver(binary, [], "".join(part), timeout=400)
        ctx.check_traces(v, "BoxTrace", "SPECIFICATION TraceSpec\nINVARIANTS InBox Dims\nPOSTCONDITION TraceAccepted\n" + TAIL, ev, chunk=400,
                         rerun=lambda i: ctx.run_driver(binary, [], part[i]))
    rep = [s for s in sc if "new rep" in s or "new chain3" in s]
    one("box", sc)
    one("boxt", rep)
    d.result()


def c18(ctx):
    bounded(ctx)
    ctx.assumptions += ["ten families of objectives with finite gradients (smooth and finite ones for NLopt), NLopt algorithms that support bounds, dimension at most 4, 60 evaluations per run",
                        "points are abstracted to the class of each coordinate"]


NATIVE = ["rprop", "ga", "ga2", "adam", "grid", "grid7", "random", "rep_rprop", "rep_adam"]
GRAD = ["chain3", "lbfgs", "mma", "slsqp", "tnewton", "var2"]
NOGRAD = ["rep_sbplx", "chain", "cobyla", "bobyqa", "neldermead", "sbplx", "direct", "crs", "esch", "isres"]


def quoted(l): return ", ".join('"%s"' % k for k in l)


def meta(ctx):
    q = ctx.quick
    b = ctx.build({"meta": (["meta.cpp"], []), "metat": (["meta.cpp"], T)})
    d = ctx.pool.submit(ctx.design, "MetaMC", "SPECIFICATION Spec\nINVARIANTS NoBetter NoBetterRun AllRun\nPROPERTY Terminates\n" + TAIL)
    sc = {}
    for i, (k, n) in enumerate((("grid", 200), ("repeat", 300), ("chain", 80))):
        n = n if q else n * 8
        bs = ctx.simulate("MetaGen", 'SPECIFICATION Spec\nCONSTANT Kind = "%s"\nINVARIANT Emit\n%s' % (k, TAIL), n, 4, salt=40 + i, limit=n)
        sc[k] = []
        for (c,) in bs:
            a, bb, vs = (c["bins"], c["dim"], c["vals"]) if k == "grid" else (c["n"], int(c["bounded"]), c["vals"] if k == "repeat" else c["codes"])
            sc[k].append("%s %d %d %s %s\n" % (k, a, bb, json.dumps(c, separators=(",", ":")), " ".join(map(str, vs))))
    for v, part in (("meta", sc["grid"] + sc["repeat"] + sc["chain"]), ("metat", sc["repeat"])):
        binary = b[v].result()
        ev = ctx.run_driver(binary, [], "".join(part), timeout=400)
        ctx.check_traces(v, "MetaTrace", "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n" + TAIL, ev, chunk=150,
                         rerun=lambda i: ctx.run_driver(binary, [], part[i]))
    d.result()


def c19(ctx):
    b = ctx.build({"opt": (["opt.cpp"], []), "box": (["box.cpp"], [])})
    meta(ctx)
    engines(ctx, b["box"])
    steps(ctx, "C19", b["opt"], [("short", 900), ("long", 15), ("small", 15)])
    ctx.assumptions += ["grids of at most 81 points in dimensions 1 to 4, up to 40 repetitions, chains of up to 4 optimisers"]
