------------------------------ MODULE SparseTrace -----------------------------
EXTENDS Sparse, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
TraceInit == l = 1 /\ SpInit
\* the points kept, each with its own sample, and the predictions of an exact model on them
Obs == kept' = Ev.kept /\ Ev.pair /\ Ev.pred /\ Ev.n = Len(Ev.kept)
TNew == Is("new") /\ NewCfg([max |-> Ev.max, dim |-> Ev.dim, pos |-> Ev.pos])
TCompute == Is("compute") /\ Compute(Ev.s) /\ Obs
\* the same batch computed again and again (another schedule each time): every result must be allowed
TRepeat == Is("repeat") /\ UNCHANGED cfg /\ kept' = Ev.kept /\ Ev.pair
           /\ LET S == Sparsify(Ev.s) IN \A i \in DOMAIN Ev.all : Ev.all[i] \in S
TAdd == Is("add") /\ Add(Ev.p) /\ Obs
TSame == (Is("recompute") \/ Is("query") \/ Is("copy") \/ Is("reload")) /\ Same /\ Obs
TraceNext == TNew \/ TCompute \/ TRepeat \/ TAdd \/ TSame
TraceSpec == TraceInit /\ [][TraceNext]_<<spVars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                   IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
