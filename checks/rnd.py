"""C23: random generators."""
TAIL = "CHECK_DEADLOCK FALSE\n"
FIELDS = {"make": "g t a b seed", "seed": "g seed", "reset": "g", "param": "g a b", "draw": "g n", "vec": "g n", "vector": "n bounded", "lhs": "d n", "cover": "a seed", "stats": "t a b seed"}


def line(e): return " ".join([e["e"]] + [str(int(e[f]) if isinstance(e[f], bool) else e[f]) for f in FIELDS[e["e"]].split()]) + "\n"


def c23(ctx):
    q = ctx.quick
    b = ctx.build({"rand": (["rand.cpp"], [])})
    d = ctx.pool.submit(ctx.design, "RandMC", "SPECIFICATION Spec\nCONSTANTS MaxOps = %d Engine <- E3\nINVARIANT Agrees\n%s" % (5 if q else 7, TAIL))
    n = 120 if q else 800
    bs = ctx.simulate("RandGen", "SPECIFICATION Spec\nCONSTANT MaxOps = 30\nINVARIANT Emit\n" + TAIL, n, 35, salt=60, limit=n)
    sc = ["new\n" + "".join(line(e) for e in x) + ("threads 4\n" if i % 10 == 0 else "") for i, x in enumerate(bs)]
    binary = b["rand"].result()
    # groups of histories share what is learnt; every group is executed by two processes
    ev, scripts = [], []
    for i in range(0, len(sc), 20):
        g = "".join(sc[i:i + 20])
        e1, e2 = ctx.run_driver(binary, [], g), ctx.run_driver(binary, [], g)
        scripts.append(g)
        ev.append(e1 + e2)
    ctx.check_traces("rand", "RandTrace", "SPECIFICATION TraceSpec\nINVARIANT DistinctNow\nPOSTCONDITION TraceAccepted\n" + TAIL,
                     [e for g in ev for e in g], traces=ev, chunk=1,
                     rerun=lambda k: ctx.run_driver(binary, [], scripts[k]) + ctx.run_driver(binary, [], scripts[k]))
    d.result()
    ctx.assumptions += ["histories of 30 operations on 4 generators, nine seeds; the sequence of each (type, bounds, seed) is learnt, not compared with a reference"]
