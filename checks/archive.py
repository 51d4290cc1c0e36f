"""C13: archives."""


def script(b):
    out = []
    for e in b:
        if e["e"] in ("new", "end"):
            out.append(e["e"])
        else:
            out.append(" ".join(map(str, [e["e"], e["fmt"], e["dir"], e["name"], e["how"], e["kind"]] +
                                    ([e["id"]] + list(e["sizes"]) if e["e"] == "save" else []))))
    return "\n".join(out) + "\n"


def c13(ctx):
    q = ctx.quick
    b = ctx.build({"archive": (["archive.cpp"], [])})
    d = ctx.pool.submit(ctx.design, "ArchiveMC", """SPECIFICATION Spec
CONSTANT Keys <- %s
INVARIANT LastWins
PROPERTIES Isolation LoadPure
CHECK_DEADLOCK FALSE
""" % ("SmallKeys" if q else "MoreKeys"))
    n, ops = (300, 16) if q else (4000, 30)
    bs = ctx.simulate("ArchiveGen", "SPECIFICATION Spec\nCONSTANT MaxOps = %d\nCONSTANT Keys <- AllKeys\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % ops,
                      n, ops + 30)
    sc = [script(x) for x in bs]
    binary = b["archive"].result()
    ev = ctx.run_driver(binary, [], "".join(sc))
    ctx.check_traces("archive", "ArchiveTrace", "SPECIFICATION TraceSpec\nCONSTANT Keys <- AllKeys\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n",
                     ev, chunk=100 if q else 500, rerun=lambda i: ctx.run_driver(binary, [], sc[i]))
    d.result()
    ctx.assumptions += ["finite numbers only (a table with signed zeros, extreme, denormal and non-dyadic values); binary values compared bit for bit, text values to 5e-15 relative"]
