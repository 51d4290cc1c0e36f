------------------------------ MODULE EhviTrace ------------------------------
EXTENDS Ehvi, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
TraceInit == l = 1 /\ EInit([d |-> 2, ninit |-> 1, iters |-> 0, rx |-> -1, ry |-> -1])
TNew == Is("new") /\ cfg' = Ev.cfg /\ pc' = "idle" /\ hist' = <<>> /\ mods' = <<>> /\ front' = <<>> /\ it' = 0 /\ tot' = 0 /\ left' = 0 /\ inner' = <<>>
TAdd == Is("add") /\ Add(Ev.x, Ev.ok, Ev.y) /\ Ev.raised = ~Ev.ok
TModels == Is("models") /\ UpdateModels
TFront == Is("front") /\ UpdateFront
\* one model per objective, each trained with its objective of every pair
TSeen == /\ Is("seen") /\ pc = "idle" /\ UNCHANGED ehVars
         /\ Ev.xs = Xs(hist) /\ Ev.ys = Ys(hist)
         /\ Ev.mods = (IF mods = <<>> THEN <<>> ELSE [j \in 1..cfg.d |-> [xs |-> Xs(mods), ys |-> Col(mods, j)]])
         /\ (IF front = <<>> THEN Ev.front = <<>> ELSE ParetoData(front, Ev.front))
TStart == Is("start") /\ Start(Ev.reset)
TInner == Is("inner") /\ Inner(Ev.st, Ev.cs, Ev.vs, Ev.ret)
TEval == Is("eval") /\ (EvalInit(Ev.x, Ev.ok, Ev.y) \/ EvalLoop(Ev.x, Ev.ok, Ev.y))
TStat == Is("stat") /\ Stat /\ Ev.it = it /\ Ev.tot = tot
TEnd == Is("end") /\ End /\ Ev.it = it /\ Ev.tot = tot
TRaise == Is("raise") /\ pc = "idle" /\ UNCHANGED ehVars
TraceNext == TNew \/ TAdd \/ TModels \/ TFront \/ TSeen \/ TStart \/ TInner \/ TEval \/ TStat \/ TEnd \/ TRaise
TraceSpec == TraceInit /\ [][TraceNext]_<<ehVars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                   IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
