------------------------------ MODULE CBOTrace -------------------------------
EXTENDS CBO, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
TraceInit == l = 1 /\ CInit([dout |-> 1, ncon |-> 0, ninit |-> 0, iters |-> 0, hp |-> 0])
TNew == Is("new") /\ cfg' = Ev.cfg /\ pc' = "idle" /\ hist' = <<>> /\ mod' = <<>> /\ con' = <<>> /\ it' = 0 /\ tot' = 0 /\ left' = 0 /\ pend' = {}
TStart == Is("start") /\ Start(Ev.reset)
\* contents of the models: sequences of <<point, values>>
SeesModels == Ev.mod = mod /\ (cfg.ncon > 0 => Ev.con = con)
TPropose == Is("propose") /\ Propose /\ Ev.it = it /\ SeesModels
TEval == Is("eval") /\ (EvalInit(Ev.x, Ev.ok, Ev.y) \/ EvalLoop(Ev.x, Ev.ok, Ev.y))
TStat == Is("stat") /\ Stat /\ Ev.it = it /\ Ev.tot = tot /\ Ev.xs = [i \in DOMAIN hist |-> hist[i][1]] /\ Ev.ys = [i \in DOMAIN hist |-> hist[i][2]]
TTune == Is("tune") /\ Tune(Ev.w) /\ Ev.data = (IF Ev.w = "m" THEN mod ELSE con)
TEnd == Is("end") /\ End /\ Ev.it = it /\ Ev.tot = tot
\* the call was ended by the failed evaluation
TRaise == Is("raise") /\ pc = "idle" /\ UNCHANGED cboVars
THist == Is("hist") /\ pc = "idle" /\ Ev.xs = [i \in DOMAIN hist |-> hist[i][1]] /\ Ev.ys = [i \in DOMAIN hist |-> hist[i][2]] /\ UNCHANGED cboVars
TBest == Is("best") /\ pc = "idle" /\ hist # <<>> /\ UNCHANGED cboVars
         /\ LET b == Best(Ev.a) IN Ev.y = ObjOf(hist[b][2]) /\ Ev.x = hist[b][1]
TraceNext == TNew \/ TStart \/ TPropose \/ TEval \/ TStat \/ TTune \/ TEnd \/ TRaise \/ THist \/ TBest
TraceSpec == TraceInit /\ [][TraceNext]_<<cboVars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                   IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
