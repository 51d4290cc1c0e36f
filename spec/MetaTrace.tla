------------------------------ MODULE MetaTrace ------------------------------
EXTENDS Meta, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
TraceInit == l = 1 /\ cfg = [k |-> "none"] /\ st = "done" /\ ran = {}
TNew == Is("new") /\ New(Ev.cfg)
TEval == Is("eval") /\ GridEval(Ev.p)
TGrid == Is("greturn") /\ GridReturn(Ev.p)
\* near: within epsilon of the given start in each coordinate
TStart == Is("start") /\ Start(Ev.i, Ev.near, Ev.b)
TRepeat == Is("rreturn") /\ RepeatReturn(Ev.i) /\ (Cardinality(ran) > 1 => Ev.distinct > 1)
TStage == Is("stage") /\ Stage(Ev.i, Ev.c, Ev.b)
TChain == Is("creturn") /\ ChainReturn(Ev.c)
TraceNext == TNew \/ TEval \/ TGrid \/ TStart \/ TRepeat \/ TStage \/ TChain
TraceSpec == TraceInit /\ [][TraceNext]_<<metaVars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                   IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
