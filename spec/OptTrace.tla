------------------------------ MODULE OptTrace -------------------------------
(* The recorded evaluations of the real optimisers. Focus "C20": the update rule is enforced;
   "C19": only what is returned.                                                              *)
EXTENDS Opt, TLC, Json, IOUtils
CONSTANT Focus
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
C20 == Focus = "C20"
TraceInit == l = 1 /\ cfg = [alg |-> "none"] /\ pc = "idle" /\ x = <<0>> /\ aux = <<>> /\ it = 0 /\ seen = <<>>
New == Is("new") /\ OptNew(Ev.cfg, Ev.start)
Tol(j) == CASE cfg.alg = "rprop" -> 3 + Abs(aux[j][1]) \div 2000 [] cfg.alg = "ga" -> 1 [] OTHER -> 3
Near(a, b) == Len(a) = Len(b) /\ \A j \in DOMAIN a : Abs(a[j] - b[j]) <= Tol(j)
\* drift is removed by continuing from the recorded point (unless the evaluation is elsewhere)
From == IF cfg.alg = "ga" /\ cfg.nesterov THEN x ELSE Ev.x
TEval == /\ Is("eval")
         /\ IF C20 THEN Near(Ev.x, At(x)) /\ Step(From, Ev.x, Ev.v, Ev.g)
            ELSE /\ seen' = Append(seen, <<Ev.x, Ev.v>>) /\ UNCHANGED <<cfg, pc, x, aux, it>>
TReturn == /\ Is("return") /\ (C20 => pc = "done")
           /\ IF C20 THEN (IF cfg.alg = "rprop" THEN TRUE ELSE Near(Ev.x, x))
              ELSE (cfg.alg = "rprop" => \E r \in Results : Near(Ev.x, r))
           /\ pc' = "idle" /\ UNCHANGED <<cfg, x, aux, it, seen>>
TraceNext == New \/ TEval \/ TReturn
TraceSpec == TraceInit /\ [][TraceNext]_<<optVars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                   IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
