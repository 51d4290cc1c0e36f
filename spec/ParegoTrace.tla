---------------------------- MODULE ParegoTrace ------------------------------
EXTENDS Parego, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
TraceInit == l = 1 /\ PInit([d |-> 1, rho |-> 0, ninit |-> 0, iters |-> 0, hp |-> 0])
TNew == Is("new") /\ cfg' = Ev.cfg /\ pc' = "idle" /\ hist' = <<>> /\ mod' = <<>> /\ w' = "" /\ fresh' = FALSE /\ it' = 0 /\ tot' = 0 /\ left' = 0
TCompute == Is("compute") /\ Compute(Ev.d, [i \in DOMAIN Ev.xs |-> <<Ev.xs[i], Ev.ys[i]>>])
TAdd == Is("add") /\ Add(Ev.x, Ev.y)
TKeep == (Is("copy") \/ Is("recompute") \/ Is("tune")) /\ Keep
TLook == Is("look") /\ pc = "idle" /\ Look(Ev.xs, Ev.s, Ev.w)
TStart == Is("start") /\ Start(Ev.reset)
TPropose == /\ Is("propose") /\ Propose /\ Ev.it = it /\ UNCHANGED <<cfg, hist, mod, it, tot, left>>
            /\ Ev.xs = Xs(mod) /\ Scalarised(mod, Ev.s)
            /\ mod # <<>> => (IF fresh THEN (cfg.d >= 2 => Ev.w # w) ELSE Ev.w = w)
            /\ w' = Ev.w /\ fresh' = FALSE
TEval == Is("eval") /\ (EvalInit(Ev.x, Ev.ok, Ev.y) \/ EvalLoop(Ev.x, Ev.ok, Ev.y))
TEnd == Is("end") /\ End /\ Ev.it = it /\ Ev.tot = tot
TRaise == Is("raise") /\ pc = "idle" /\ UNCHANGED paVars
THist == Is("hist") /\ pc = "idle" /\ Ev.xs = Xs(hist) /\ Ev.ys = Ys(hist) /\ UNCHANGED paVars
TraceNext == TNew \/ TCompute \/ TAdd \/ TKeep \/ TLook \/ TStart \/ TPropose \/ TEval \/ TEnd \/ TRaise \/ THist
TraceSpec == TraceInit /\ [][TraceNext]_<<paVars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                   IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
